"""Driver process: runs scenarios (one JSON per line) with drv_<name>.run() and
writes one JSON trace per line.

Exit codes: 0 ok; 3 the implementation raised an exception that no clause of
the driver expects (reported as a crash of the implementation); 1 error of the
harness."""
import faulthandler, importlib, json, os, signal, sys, traceback

SCENARIO_TIMEOUT = 120


class Hang(Exception):
    pass


def _alarm(sig, frame):
    raise Hang('scenario did not finish in %d s' % SCENARIO_TIMEOUT)


def in_repo(tb):
    for fr, _ in traceback.walk_tb(tb):
        fn = fr.f_code.co_filename
        # Frames of Cython code have relative names.
        if fn.startswith('sfepy/') or os.path.abspath(fn).startswith(
                os.environ.get('VERIF_REPO', '/repo') + '/'):
            return True
    return False


def main():
    name, fin, fout = sys.argv[1:4]
    faulthandler.enable()
    from sfepy.base.base import output
    output.set_output(quiet=True)
    mod = importlib.import_module('drv_' + name)
    timeout = getattr(mod, 'TIMEOUT', SCENARIO_TIMEOUT)
    signal.signal(signal.SIGALRM, _alarm)
    with open(fin) as fd, open(fout, 'w') as fo:
        for line in fd:
            scn = json.loads(line)
            signal.alarm(timeout)
            faulthandler.dump_traceback_later(timeout + 20, exit=True)
            try:
                tr = mod.run(scn)
            except Hang:
                traceback.print_exc()
                sys.exit(3)
            except Exception as exc:
                traceback.print_exc()
                sys.exit(3 if in_repo(exc.__traceback__) else 1)
            finally:
                signal.alarm(0)
                faulthandler.cancel_dump_traceback_later()
            fo.write(json.dumps(to_plain(tr)) + '\n')
            fo.flush()


def to_plain(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): to_plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return to_plain(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        raise TypeError('float in a trace: %r' % x)
    return x


if __name__ == '__main__':
    main()
