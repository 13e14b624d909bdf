"""The same case under several local time zones (no time of the protocol is a local time of this computer)."""
import os
import time

ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "<+14>-14", "<-12>12", "NZST-12NZDT,M9.5.0,M4.1.0/3"]


def zoned(run):
    def go(case, ctx):
        zone, inner = case
        old = os.environ.get("TZ")
        os.environ["TZ"] = zone
        time.tzset()
        try:
            run(inner, ctx)
        finally:
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
    return go


def in_zones(*gens):
    def gen():
        for z in ZONES:
            for g in gens:
                for case in g():
                    yield [z, case]
    return gen
