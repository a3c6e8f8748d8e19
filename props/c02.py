"""C02 units: the same quantity set or read in different units"""
from props.common import *


def h_setters(c):
    N = c.choice("N", [2, 4, 6])
    wl = c.choice("wl", ["nm", "m"])
    how = c.choice("how", ["ps", "s", "THz", "mks"])
    order = c.choice("order", [0, 1])
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    W = c.real("W", 0.01, 1000)
    lam = c.real("lam", 100, 20000)
    fr = c.real("frep", 0.001, 10000)
    p = Pulse(n=N)

    def setw():
        if wl == "nm":
            p.set_center_wavelength_nm(lam)
        else:
            p.set_center_wavelength_m(lam * 1e-9)

    def sett():
        if how == "ps":
            p.set_time_window_ps(W)
        elif how == "s":
            p.set_time_window_s(W * 1e-12)
        elif how == "THz":
            p.set_frequency_window_THz(N / W)
        else:
            p.set_frequency_window_mks(N / W * 1e12)
    if order:
        setw()
        sett()
    else:
        sett()
        setw()
    p.set_frep_MHz(fr)
    grids_ok(c, p, N, W, lam)
    c.eq("frep_MHz", p.frep_MHz, fr)
    c.eq("frep_mks", p.frep_mks, fr * 1e6)


def h_frequency_window(c):
    """the span of the frequency grid is the requested window"""
    N = c.choice("N", [2, 4, 8])
    p, W, lam = mk(c, N)
    D = c.real("D", 0.001, 1000)
    if c.choice("how", ["THz", "mks"]) == "THz":
        p.set_frequency_window_THz(D)
    else:
        p.set_frequency_window_mks(D * 1e12)
    c.eq("dF", p.dF_THz * N, D)
    c.eq("dT", p.dT_ps, 1 / D)
    c.eq("extent", p.F_THz[N - 1] - p.F_THz[0] + p.dF_THz, D)


def h_frep(c):
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    fr = c.real("frep", 0.001, 10000)
    p = Pulse(frep_MHz=fr, n=4)
    c.eq("frep_MHz", p.frep_MHz, fr)
    c.eq("frep_mks", p.frep_mks, fr * 1e6)
