#!/usr/bin/env python3
"""run.py <property>: decides one property against /repo's working tree."""
import os, signal, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
sys.dont_write_bytecode = True
import vf, tty, formats, timeline, streams, play, net, dos, rec, joins, names, pace, addr, term

CHECKS, TECH, NOTE = {}, {}, {}
for m in (tty, formats, timeline, streams, play, net, dos, rec, joins, names, pace, addr, term):
    TECH.update(getattr(m, "TECH", {}))
    NOTE.update(getattr(m, "NOTE", {}))
    for name in dir(m):
        if len(name) == 3 and name[0] == "c" and name[1:].isdigit():
            CHECKS["C" + name[1:]] = getattr(m, name)

if __name__ == "__main__":
    # whoever runs us may have some ignored or blocked; what we run doesn't
    for n in signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP, signal.SIGINT, signal.SIGPIPE, signal.SIGXFSZ}:
        try:
            signal.signal(n, signal.SIG_DFL)
        except OSError:
            pass
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    sys.exit(vf.main(sys.argv[1], CHECKS[sys.argv[1]]))
