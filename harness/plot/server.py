"""Has plot.py read simulation output: one JSON string per line, one answer
per line: {"rows": [[phase, time, x, y, z, vx, vy, vz], ...]} or
{"error": ...} (the tool failed) or {"skip": ...} (cannot be judged).
With "draw" the whole tool is run: {"line": [[x, y, z, scalar], ...],
"labels": [[text, x, y, z], ...]}."""
import contextlib
import importlib.util
import io
import json
import os
import runpy
import sys
import tempfile
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "stubs"))
sys.dont_write_bytecode = True


def load(path):
    spec = importlib.util.spec_from_file_location("plot_tool", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def rows(df):
    pos, vel = df["Position"], df["Velocity"]
    out = []
    for k, p, v in zip(df.index, pos._rows, vel._rows):
        if len(p) != 3 or len(v) != 3:
            raise ValueError("a position or velocity without three components")
        if not isinstance(k, tuple) or len(k) != 2:
            raise TypeError("index")
        out.append([float(k[0]), float(k[1])] + [float(x) for x in p] + [float(x) for x in v])
    return out


def own_fault(e):
    """Whether the tool itself uses what it does not have."""
    frames = traceback.extract_tb(e.__traceback__)
    inside = any(f.filename.startswith(os.path.join(here, "stubs")) for f in frames)
    return isinstance(e, (AttributeError, TypeError)) and not inside and "NoneType" in str(e)


def draw(path, text, file):
    """Runs the tool on a file or on standard input."""
    import pyvista

    pyvista.drawn.clear()
    with tempfile.NamedTemporaryFile("w", encoding="utf-8", suffix=".txt") as f:
        f.write(text)
        f.flush()
        old, saved = sys.argv, None
        sys.argv = ["plot.py"] + ([f.name] if file else [])
        # the tool may read and close file descriptor 0
        stdin, saved = sys.stdin, os.dup(0)
        try:
            fd = os.open(f.name, os.O_RDONLY)
            os.dup2(fd, 0)
            os.close(fd)
            sys.stdin = open(os.dup(0), "r", encoding="utf-8")
            with contextlib.redirect_stdout(io.StringIO()):
                runpy.run_path(path, run_name="__main__")
        finally:
            os.dup2(saved, 0)
            os.close(saved)
            sys.stdin.close()
            sys.stdin, sys.argv = stdin, old
    lines = [d for d in pyvista.drawn if d[0] == "line"]
    labels = [d for d in pyvista.drawn if d[0] == "labels"]
    if len([d for d in pyvista.drawn if d[0] == "plotter"]) != 1:
        raise TypeError("other than one plot")
    if len(lines) > 1 or any(s is None for _, _, s in lines):
        raise TypeError("other lines than expected")
    if not [d for d in pyvista.drawn if d[0] == "show"]:
        raise ValueError("nothing is shown")
    line = []
    for _, p, s in lines:
        if s.shape != (len(p),):
            raise ValueError("Number of scalars must match the number of points")
        line += [[float(x) for x in q] + [float(c)] for q, c in zip(p, s)]
    return {
        "line": line,
        "labels": [[t] + [float(x) for x in q] for _, p, ts in labels for q, t in zip(p, ts)],
    }


def main():
    reply = sys.stdout
    try:
        tool = load(sys.argv[1])
        parse = tool.parse_test_output
    except (ImportError, AttributeError) as e:
        tool, parse = None, str(e)
    for line in sys.stdin:
        job = json.loads(line)
        text = job["out"]
        try:
            if tool is None:
                answer = {"skip": parse}
            elif job.get("draw"):
                answer = draw(sys.argv[1], text, job["file"])
            else:
                if job["file"] and hasattr(tool, "read_file"):
                    # through the tool's own reading of a file
                    with tempfile.NamedTemporaryFile("w", encoding="utf-8", suffix=".txt") as f:
                        f.write(text)
                        f.flush()
                        old, sys.argv = sys.argv, ["plot.py", f.name]
                        try:
                            with contextlib.redirect_stdout(io.StringIO()):
                                with tool.read_file() as t:
                                    text = t
                        finally:
                            sys.argv = old
                with contextlib.redirect_stdout(io.StringIO()):
                    answer = {"rows": rows(parse(text))}
        except (AttributeError, TypeError, KeyError, NotImplementedError, ImportError) as e:
            kind = "error" if own_fault(e) else "skip"
            answer = {kind: f"{type(e).__name__}: {e}"}
        except Exception as e:
            answer = {"error": traceback.format_exception_only(type(e), e)[-1].strip()}
        try:
            answer = json.dumps(answer, allow_nan=False)
        except ValueError:
            answer = json.dumps({"error": "values which are not numbers"})
        reply.write(answer + "\n")
        reply.flush()


main()
