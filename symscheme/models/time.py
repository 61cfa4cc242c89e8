"""Model of time for TZ=UTC: strftime for the numeric directives, strptime, mktime."""
import _real_time
import _real_calendar

timezone = 0
altzone = 0
daylight = 0
tzname = ('UTC', 'UTC')
_STRUCT_TM_ITEMS = 11
struct_time = _real_time.struct_time
time = _real_time.time
gmtime = _real_time.gmtime
monotonic = _real_time.monotonic
perf_counter = _real_time.perf_counter


def _plain(x):
    # glibc pads %Y with nothing at all
    return str(x)


def strftime(format, t=None):
    if t is None:
        return _real_time.strftime(format)
    return _format(format, tuple(t))


def _format(format, t):
    year, month, day, hour, minute, second = t[0], t[1], t[2], t[3], t[4], t[5]
    out = []
    i = 0
    while i < len(format):
        ch = format[i]
        i += 1
        if ch != '%' or i >= len(format):
            out.append(ch)
            continue
        ch = format[i]
        i += 1
        if ch == 'Y':
            out.append(_plain(year))
        elif ch == 'm':
            out.append('%02d' % month)
        elif ch == 'd':
            out.append('%02d' % day)
        elif ch == 'H':
            out.append('%02d' % hour)
        elif ch == 'M':
            out.append('%02d' % minute)
        elif ch == 'S':
            out.append('%02d' % second)
        elif ch == '%':
            out.append('%')
        else:
            out.append(_real_time.strftime('%' + ch, tuple(int(x) for x in t)))
    return ''.join(out)


def strptime(string, format='%a %b %d %H:%M:%S %Y'):
    import _strptime
    return _strptime._strptime_time(string, format)


class _Local(object):
    tm_isdst = 0


def mktime(t):
    if __rt__.has_sym(tuple(t)):
        return None
    return float(_real_calendar.timegm(t))


def localtime(seconds=None):
    if seconds is None and __rt__.exploring():
        return _Local()
    return _real_time.gmtime(seconds)
