import java.util.concurrent.ConcurrentHashMap;
import org.python.core.*;

/** Calls a function before every line of the chosen functions.  (The tracing of Jython itself holds a global lock.) */
public class LineTrace extends TraceFunction {
  private final PyObject hook;
  private final PyObject chosen;
  private static final ConcurrentHashMap<PyCode, Boolean> cache = new ConcurrentHashMap<PyCode, Boolean>();

  public LineTrace(PyObject hook, PyObject chosen) { this.hook = hook; this.chosen = chosen; }

  private PyObject call(PyObject f, PyObject... args) {
    ThreadState ts = Py.getThreadState();
    TraceFunction save = ts.tracefunc;
    ts.tracefunc = null;
    try { return f.__call__(args); } finally { ts.tracefunc = save; }
  }
  public static void on(LineTrace t) { Py.getThreadState().tracefunc = t; }
  public static void off() { Py.getThreadState().tracefunc = null; }

  public TraceFunction traceCall(PyFrame frame) {
    Boolean b = cache.get(frame.f_code);
    if (b == null) {
      PyTableCode c = (PyTableCode) frame.f_code;
      b = call(chosen, Py.newString(c.co_filename), Py.newString(c.co_name)).__nonzero__();
      cache.put(frame.f_code, b);
    }
    return b ? this : null;
  }
  public TraceFunction traceLine(PyFrame frame, int line) {
    call(hook, Py.newInteger(line));
    return this;
  }
  public TraceFunction traceReturn(PyFrame frame, PyObject value) { return this; }
  public TraceFunction traceException(PyFrame frame, PyException e) { return this; }
}
