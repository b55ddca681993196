"""Concrete replay server: JSON requests on stdin, JSON reports on stdout (runs under the project's interpreter)."""
import json
import signal
import sys

from symx import api


class Timeout(BaseException):
    pass


def main():
    hs = {}
    out = sys.stdout
    sys.stdout = sys.stderr

    def onalarm(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    for line in sys.stdin:
        req = json.loads(line)
        prop = req["property"]
        if prop not in hs:
            hs[prop] = {h.name: h for h in api.load(prop)}
        h = hs[prop][req["harness"]]
        signal.alarm(int(req.get("timeout", 20)))
        try:
            rep = api.run_concrete(h, api.Params(req["params"]), req["values"])
        except Timeout:
            rep = {"result": "fail", "label": "does not terminate", "detail": "no result within the time limit", "observed": [], "checks": 0, "missing": []}
        except RecursionError as e:
            rep = {"result": "fail", "label": "exception RecursionError", "detail": str(e), "observed": [], "checks": 0, "missing": []}
        finally:
            signal.alarm(0)
        out.write(json.dumps(rep) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
