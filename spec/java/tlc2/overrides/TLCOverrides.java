package tlc2.overrides;

/** Loaded first on the class path: the CommunityModules overrides the specification uses, plus ours. */
public class TLCOverrides implements ITLCOverrides {
  public Class[] get() {
    try {
      return new Class[] { IOUtils.class, SequencesExt.class, Json.class, FiniteSetsExt.class, Functions.class,
          Bitwise.class, Class.forName("TraceOverrides") };
    } catch (ClassNotFoundException e) {
      throw new RuntimeException(e);
    }
  }
}
