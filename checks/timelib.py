"""Shared oracle pieces for time periods (written from the documentation, not from the code)."""
import datetime
from symx.api import *

S = 1000000
M = 60 * S
H = 60 * M
D = 24 * H
LO = datetime.datetime(2001, 1, 1)
HI = datetime.datetime(2098, 12, 31, 23, 59, 59, 999999)
WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
WDL = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MN = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
MNL = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November",
       "December"]
LEAPCUM = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]


def tod(dt):
    return dt.hour * H + dt.minute * M + dt.second * S + dt.microsecond


def pos(scope, dt):
    """Microseconds from the start of the cycle the instant is in."""
    if scope == "second":
        return dt.microsecond
    if scope == "minute":
        return dt.second * S + dt.microsecond
    if scope == "hour":
        return dt.minute * M + dt.second * S + dt.microsecond
    if scope == "day":
        return tod(dt)
    if scope == "week":
        return dt.weekday() * D + tod(dt)
    if scope == "month":
        return (dt.day - 1) * D + tod(dt)
    raise ValueError(scope)


def member(x, s, e):
    """x in the circular right-open range [s, e); s == e means the whole cycle."""
    return lor(s == e, ite(s < e, land(s <= x, x < e), lor(x >= s, x < e)))


def isin(ctx, dt, period):
    """dt in period as a plain bool (forks)"""
    return dt in period


def us(td):
    """length of a timedelta in microseconds"""
    return td // datetime.timedelta(microseconds=1) if isinstance(td, datetime.timedelta) else td.us


def num(s):
    """number of a string of digits"""
    return s.to_int() if is_sym(s) else int(s)
