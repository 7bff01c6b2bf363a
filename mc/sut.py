"""Drives the mapry under test: generation through its command line."""
import contextlib
import io
import json
import os
import pathlib
import sys

from mc import core

sys.dont_write_bytecode = True
if str(core.REPO) not in sys.path:
    sys.path.insert(0, str(core.REPO))


class GenerationFailed(Exception):
    """The command line did not generate code for a schema."""


class Broken(Exception):
    """Generated code could not be built, loaded or driven."""


def cli(command, schema_path, outdir):
    """Run the command line in this process: (exit code, out, err, exc)."""
    import mapry.main
    argv = sys.argv
    out, err = io.StringIO(), io.StringIO()
    sys.argv = ["mapry-to", command, "--schema", str(schema_path),
                "--outdir", str(outdir)]
    code, exc = None, None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            code = mapry.main.run(prog="mapry-to")
    except SystemExit as e:
        code = e.code
    except BaseException as e:  # pylint: disable=broad-except
        exc = e
    finally:
        sys.argv = argv
    return code, out.getvalue(), err.getvalue(), exc


def generate(command, schema, outdir):
    """Write the schema next to ``outdir`` and generate code into it."""
    outdir = pathlib.Path(outdir)
    outdir.parent.mkdir(parents=True, exist_ok=True)
    spath = outdir.parent / (outdir.name + ".schema.json")
    spath.write_text(json.dumps(schema), encoding="utf-8")
    code, out, err, exc = cli(command, spath, outdir)
    if exc is not None:
        raise GenerationFailed("{} raised {}: {}".format(
            command, type(exc).__name__, str(exc)[:500]))
    if code != 0:
        raise GenerationFailed("{} exited with {}: {}".format(
            command, code, err[-500:]))
    return outdir
