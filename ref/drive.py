"""Call sequences over the public interface, analysed (never run)."""
import nappy


def history(f, ops):
    out = []
    for op in ops:
        try:
            if op == "write":
                f.write()
            else:
                f.close()
            out.append("ok")
        except Exception:
            out.append("raised")
    return out


def with_read(name):
    with nappy.openNAFile(name) as f:
        f.readData()
    return f


def with_write(name, d):
    with nappy.openNAFile(name, "w", d) as f:
        f.write()
    return f


def with_error(name, d):
    keep = []
    try:
        with nappy.openNAFile(name, "w", d) as f:
            keep.append(f)
            raise ValueError("user error")
    except ValueError:
        keep.append("propagated")
    return keep


def read_then_write(name):
    f = nappy.openNAFile(name)
    try:
        f.write()
        return "ok"
    except Exception:
        return "raised"


def bad_mode(name, mode, d):
    try:
        nappy.openNAFile(name, mode, d)
        return "ok"
    except Exception:
        return "raised"
