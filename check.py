#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import build, engine

def main():
    prop = sys.argv[1]
    import values, suites
    try:
        if prop in values.FAMILIES:
            return values.family(prop)
        if prop in suites.SUITES:
            return suites.SUITES[prop]()
        import rings, registry, codegen, pybind
        for m in (rings, registry, codegen, pybind):
            if hasattr(m, prop.lower()):
                return getattr(m, prop.lower())()
        raise engine.CheckError('no check for ' + prop)
    except build.BuildError as e:
        print('the tree does not build:\n%s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
