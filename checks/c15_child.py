"""Process B of C15: a real interpreter with its own hash seed regenerates the code and continues a run."""
import json
import os
import sys
import warnings

warnings.filterwarnings('ignore')


def shift_clock(offset):
    """This process lives at another date."""
    import datetime
    import time
    real, lt, gm, st = time.time, time.localtime, time.gmtime, time.strftime
    time.time = lambda: max(real() + offset, 1e5)
    time.time_ns = lambda: int(time.time() * 1e9)
    time.localtime = lambda s=None: lt(time.time() if s is None else s)
    time.gmtime = lambda s=None: gm(time.time() if s is None else s)
    time.ctime = lambda s=None: time.asctime(time.localtime(s))
    time.strftime = lambda f, *a: st(f, *(a or (time.localtime(),)))

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())
    datetime.date, datetime.datetime = Date, DateTime


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    req = json.load(sys.stdin)
    import jinja2, numpy, sympy  # noqa
    # no byte code of the code under test is read from its tree
    sys.pycache_prefix = os.environ.get('VERIF_PYC') or '/nonexistent'
    sys.path.insert(0, req['src'])
    shift_clock(req.get('clock', 0))
    from checks import c15
    out = c15.process(req['case'], req['state'])
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
