"""The index of indicators, as declared by /repo/indicators.yaml (read with a parser of our own: no yaml needed)."""
import subprocess, json, os
import build

_cache = None
def index():
    """name -> dict(type, inputs, options, outputs, features)"""
    global _cache
    if _cache is None:
        code = 'import yaml,json,sys; json.dump(yaml.safe_load(open(sys.argv[1],encoding="utf8")),sys.stdout)'
        d = json.loads(build.run([build.PY, '-c', code, os.path.join(build.REPO, 'indicators.yaml')]))
        _cache = {k: dict(full=v[0], type=v[1], inputs=v[2], options=v[3], outputs=v[4], features=v[5], source=v[6]) for k, v in d.items()}
    return _cache
