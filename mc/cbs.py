"""One recording callback for every kind of event, registered once (at the first use) through the public methods.

`use(handler)` redirects all of them: handler(name, item, args) is awaited by the callback, so that a
check can record the call, raise, or block.
"""
import os
import signal
import traceback

from .core import CheckError, Violation
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy.energy import EnergyManagement
from pyown.items.energy.stop_go import StopGo
from pyown.items.gateway import Gateway
from pyown.items.gateway.gateway import WhatGateway
from pyown.items.lighting import Dimmer, Light

_handler = None
NAMES = []

ENERGY = {
    "daily": "on_daily_totalizers_hourly",
    "month_avg": "on_monthly_average_hourly",
    "month_cur": "on_monthly_totalizers_current_year",
    "month_last": "on_monthly_totalizers_last_year",
    "stop_go": "on_stop_go_status",
    "power": "on_instant_power",
    "unit_total": "on_energy_unit_totalizer",
    "unit_month": "on_energy_unit_per_month",
    "partial_month": "on_partial_totalizer_current_month",
    "partial_day": "on_partial_totalizer_current_day",
    "actuator": "on_actuators_info",
    "totalizer": "on_totalizer_since_reset",
    "diff": "on_differential_current_level",
}


def _callback(name):
    async def cb(item, *args):
        if _handler is not None:
            await _handler(name, item, args)

    NAMES.append(name)
    return cb


# names that share the part before the dot belong to the same kind of event
REGISTER = {
    "light_status.light": lambda f: Light.on_status_change(f),
    "light_status.dimmer": lambda f: Dimmer.on_status_change(f),
    "light_temporization.light": lambda f: Light.on_temporization_change(f),
    "light_temporization.dimmer": lambda f: Dimmer.on_temporization_change(f),
    "light_luminosity.a": lambda f: Dimmer.on_luminosity_change(f),
    "light_luminosity.b": lambda f: Dimmer.on_luminosity_change(f),
    "light_hsv.a": lambda f: Dimmer.on_hsv_change(f),
    "light_white.a": lambda f: Dimmer.on_white_temp_change(f),
    "automation.a": lambda f: Automation.on_status_change(f),
    "automation.b": lambda f: Automation.on_status_change(f),
    "camera.a": lambda f: Camera.on_status_change(f),
    "camera.b": lambda f: Camera.on_status_change(f),
    **{f"gateway_{w.name}.a": lambda f, w=w: Gateway.register_callback(w, f) for w in WhatGateway},
    "gateway_TIME.b": lambda f: Gateway.register_callback(WhatGateway.TIME, f),
    **{f"energy_{n}.a": lambda f, m=m: getattr(EnergyManagement, m)(f) for n, m in ENERGY.items()},
    "energy_stop_go.b": lambda f: StopGo.on_stop_go_status(f),
    "energy_power.b": lambda f: EnergyManagement.on_instant_power(f),
}


def register(name):
    REGISTER[name](_callback(name))


_ready = False


def _ensure():
    global _ready
    if not _ready:
        _ready = True
        for name in REGISTER:
            register(name)


def partial(fn):
    """Run fn() in a child process in which no callback is registered yet."""
    global _ready
    if _ready:
        raise CheckError("callbacks already registered in this process")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = None
        try:
            signal.setitimer(signal.ITIMER_PROF, 20.0)  # timers are not inherited
            signal.setitimer(signal.ITIMER_REAL, 120.0)
            os.close(r)
            _ready = True
            fn()
        except Violation as e:
            out = str(e)
        except BaseException as e:
            out = f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-8)
        finally:
            try:
                if out is not None:
                    os.write(w, out.encode()[:60000])
            finally:
                os._exit(0 if out is None else 1)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = f.read().decode()
    _, st = os.waitpid(pid, 0)
    if out or st:
        raise Violation(out or f"the process died with status {st}")


def of_kind(kind):
    _ensure()
    return sorted(n for n in NAMES if n.split(".")[0] == kind)


def use(handler):
    global _handler
    _ensure()
    _handler = handler
