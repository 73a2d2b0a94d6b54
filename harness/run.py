import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
os.environ["PYTHONPATH"] = os.path.join(REPO, "src")
import tempfile
_mpl = tempfile.mkdtemp(prefix="verif-mpl-")
os.environ.setdefault("MPLCONFIGDIR", _mpl)
import vlib


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        try:
            import SALib
            if not os.path.abspath(SALib.__file__).startswith(os.path.abspath(REPO)):
                raise vlib.MachineryError(f"SALib imported from {SALib.__file__}, not {REPO}")
            import SALib.sample, SALib.analyze, SALib.util  # noqa
        except vlib.MachineryError:
            raise
        except Exception as e:   # the library cannot even be imported: no guarantee holds
            ctx.bad("import", {"import": "SALib"}, traceback.format_exc())
            sys.exit(ctx.finish())
        mod = importlib.import_module("checks." + pid.lower())
        try:
            mod.run(ctx)
        except vlib.MachineryError:
            raise
        except Exception:
            # a result of the code under test the projection cannot even read
            # (wrong type, shape, missing key): the property does not hold on it
            ctx.bad("unreadable-result", {"traceback": traceback.format_exc()}, traceback.format_exc()[-1500:])
        rc = ctx.finish()
    except vlib.MachineryError as e:
        if ctx.violations:      # already decided; report the verdict
            rc = ctx.finish()
        else:
            print("MACHINERY ERROR", e, file=sys.stderr)
            rc = 2
    finally:
        import shutil
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        shutil.rmtree(_mpl, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)


main()
