import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;

/** TraceBase!Guarded: an acceptance condition whose evaluation fails (a recorded value of the wrong shape) is FALSE. */
public class TraceOverrides {
  @Evaluation(definition = "Guarded", module = "TraceBase", warn = false, silent = true)
  public static Value guarded(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
      final TLCState s1, final int control, final CostModel cm) {
    try {
      return tool.eval(args[0], c, s0, s1, control, cm);
    } catch (StackOverflowError e) {
      throw e;
    } catch (RuntimeException e) {
      return BoolValue.ValFalse;
    }
  }
}
