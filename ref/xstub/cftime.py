"""Stand-in for cftime: dates are numbers with a unit and a calendar."""

_SECONDS = {"seconds": 1, "second": 1, "sec": 1, "secs": 1, "s": 1, "minutes": 60, "minute": 60, "min": 60, "mins": 60,
            "hours": 3600, "hour": 3600, "hr": 3600, "hrs": 3600, "h": 3600, "days": 86400, "day": 86400, "d": 86400}
_BEFORE = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def _days_from_civil(y, m, d):
    y = y - 1 if m <= 2 else y
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def _civil_from_days(z):
    z = z + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (yoe + era * 400 + (1 if m <= 2 else 0), m, d)


def _date(num, units, calendar):
    parts = units.split()
    ymd = parts[2].split("T")[0].split("-")
    y, m, d = int(ymd[0]), int(ymd[1]), int(ymd[2])
    seconds = 0
    if len(parts) > 3:
        hms = parts[3].split(":")
        seconds = int(hms[0]) * 3600 + int(hms[1]) * 60
    days = int((seconds + num * _SECONDS[parts[0].lower()]) // 86400)
    if calendar == "360_day":
        n = y * 360 + (m - 1) * 30 + d - 1 + days
        return (n // 360, n % 360 // 30 + 1, n % 30 + 1)
    if calendar in ("noleap", "365_day"):
        n = y * 365 + _BEFORE[m - 1] + d - 1 + days
        doy = n % 365
        k = len([b for b in _BEFORE if b <= doy])
        return (n // 365, k, doy - _BEFORE[k - 1] + 1)
    return _civil_from_days(_days_from_civil(y, m, d) + days)


class datetime(object):
    def __init__(self, num, units, calendar="standard"):
        self.num = num
        self.units_ = units
        self.calendar = calendar
        ymd = _date(num, units, calendar)
        self.year, self.month, self.day = ymd

    def timetuple(self):
        return (self.year, self.month, self.day)

    def __eq__(self, o):
        return isinstance(o, datetime) and self.num == o.num and self.units_ == o.units_

    def __ne__(self, o):
        return not (isinstance(o, datetime) and self.num == o.num and self.units_ == o.units_)

    def __sub__(self, o):
        return self.num - o.num


def num2date(x, units, calendar="standard"):
    if hasattr(x, "tolist"):
        return [datetime(v, units, calendar) for v in x.tolist()]
    return datetime(x, units, calendar)


def date2num(x, units, calendar="standard"):
    import numpy
    if isinstance(x, datetime):
        return x.num
    return numpy.ndarray([d.num for d in numpy.asarray(x).tolist()])
