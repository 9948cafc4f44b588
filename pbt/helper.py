"""Persistent helper process of P10: reads one JSON case per line, answers
with the labels.  Runs under another PYTHONHASHSEED than the worker."""
import json
import os
import sys


def serve():
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    import warnings
    warnings.simplefilter("ignore")
    from props import p10
    for line in sys.stdin:
        case = json.loads(line)
        try:
            ans = {"labels": p10.run(case)}
        except BaseException as e:
            ans = {"error": "%s: %s" % (type(e).__name__, str(e)[:300])}
        out.write(json.dumps(ans) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
