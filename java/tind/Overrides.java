package tind;
public class Overrides implements tlc2.overrides.ITLCOverrides {
    @Override public Class[] get() { return new Class[] { RealOps.class, TraceOps.class }; }
}
