"""Reference model of a time span: plain begin/end/duration/precision with the documented rules."""
from datetime import datetime, timedelta

DAY = timedelta(days=1)
ZERO = timedelta(0)


class Invalid(Exception):
    pass


def midnight(d):
    return d.hour == d.minute == d.second == d.microsecond == 0


class Model:
    def __init__(self, todo, begin=None, end=None, dur=None, prec="second"):
        self.todo, self.begin, self.end, self.dur, self.prec = todo, begin, end, dur, prec
        self.validate()

    def validate(self):
        b, e, d, p = self.begin, self.end, self.dur, self.prec
        for x in (b, e):
            if p == "day" and x is not None and (x.tzinfo is not None or not midnight(x)):
                raise Invalid("all-day times are floating midnights")
        if b is None:
            if d is not None or (e is not None and not self.todo):
                raise Invalid("no begin")
            return
        if e is not None and d is not None:
            raise Invalid("end and duration")
        if e is not None:
            if (b.tzinfo is None) != (e.tzinfo is None):
                raise Invalid("floating and zoned")
            if b > e:
                raise Invalid("negative span")
            if p == "day" and e - b < DAY:
                raise Invalid("less than one day")
        if d is not None:
            if d < ZERO:
                raise Invalid("negative duration")
            if p == "day" and (d < DAY or d % DAY):
                raise Invalid("duration is no whole number of days")

    def but(self, **kw):
        a = dict(begin=self.begin, end=self.end, dur=self.dur, prec=self.prec)
        a.update(kw)
        return Model(self.todo, **a)

    # --- reported values
    def rep(self):
        return "duration" if self.dur is not None else "end" if self.end is not None else None

    def duration(self):
        if self.dur is not None:
            return self.dur
        if self.begin is not None and self.end is not None:
            return self.end - self.begin
        if self.todo:
            return None
        return DAY if self.prec == "day" else ZERO

    def eff_end(self):
        if self.end is not None:
            return self.end
        if self.begin is None or self.duration() is None:
            return None
        return self.begin + self.duration()

    def floating(self):
        ref = self.begin if self.begin is not None else self.end
        return ref is None or ref.tzinfo is None

    # --- edits
    def convert_end(self, target):
        if target == "due":
            if not self.todo:
                if self.rep() == "due":
                    return self
                raise Invalid("events have no due")
            target = "end"
        cur = self.rep()
        if cur == target:
            return self
        if target is None:
            return self.but(end=None, dur=None)
        if cur == "end" and target == "duration":
            if self.begin is None:
                raise Invalid("no begin")
            return self.but(end=None, dur=self.end - self.begin)
        if cur == "duration" and target == "end":
            return self.but(end=self.begin + self.dur, dur=None)
        raise Invalid("no such conversion")
