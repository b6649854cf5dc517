package machupspec;

/** Registers the operator overrides of module Real64 with TLC. */
public class Overrides implements tlc2.overrides.ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { Real64.class }; }
}
