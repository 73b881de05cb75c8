"""C19: automation and camera commands and events have their documented meaning."""
import itertools

from .cmds import answers_of, compare, refused, run_events, run_session, sends
from .core import Violation
from .partial import pairs_of, registrations
from .util import *  # noqa: F401,F403
from pyown.items.automation import Automation
from pyown.items.automation.automation import WhatAutomation
from pyown.items.camera import Camera
from pyown.items.camera.camera import WhatCamera
from pyown.tags import Where, Who

ASSUMPTIONS = ["camera events without an address belong to no item and are not judged"]

WHERES = ["12", "1", "0115", "0", "#1", "#255", "12#4#01", "0115#4#01"]
CAMERAS = [str(4000 + i) for i in range(100)]
AUTOMATION = {"stop": "0", "up": "1", "down": "2"}
CAMERA = {
    "free_resources": "9", "zoom_in": "120", "zoom_out": "121",
    "increase_x_coordinate": "130", "decrease_x_coordinate": "131", "increase_y_coordinate": "140", "decrease_y_coordinate": "141",
    "increase_luminosity": "150", "decrease_luminosity": "151", "increase_contrast": "160", "decrease_contrast": "161",
    "increase_color": "170", "decrease_color": "171", "increase_quality": "180", "decrease_quality": "181",
}  # fmt: skip
DIALS = [f"3{x}{y}" for x in range(1, 5) for y in range(1, 5)]
STATES = ["0", "9", *[v for k, v in CAMERA.items() if k != "free_resources"], *DIALS]


def automation(rep, where):
    async def body(c, s):
        for w in (where, Where(where)):
            a = Automation(c, w)
            # every ordered pair: no command depends on the previous one
            for m, n in itertools.product(AUTOMATION, repeat=2):
                await sends(s, getattr(a, m)(), f"*2*{AUTOMATION[m]}*{where}##", f"Automation({where}).{m}()")
                await sends(s, getattr(a, n)(), f"*2*{AUTOMATION[n]}*{where}##", f"Automation({where}).{n}()")

    run_session(body)
    rep.count(states=9, transitions=18, traces=9)


def camera(rep, where):
    async def body(c, s):
        for w in (where, Where(where)):
            cam = Camera(c, w)
            await sends(s, cam.receive_video(), f"*7*0*{where}##", f"Camera({where}).receive_video()")
            for m, code in CAMERA.items():
                await sends(s, getattr(cam, m)(), f"*7*{code}##", f"Camera({where}).{m}()")

    run_session(body)
    rep.count(states=len(CAMERA) + 1, transitions=len(CAMERA) + 1, traces=len(CAMERA) + 1)


def other_who(rep, who, where):
    """An item given another WHO uses it in every frame."""

    async def body(c, s):
        for given in (who, Who(who)):
            a, cam = Automation(c, where, who=given), Camera(c, "4001", who=given)
            for m, code in AUTOMATION.items():
                await sends(s, getattr(a, m)(), f"*{who}*{code}*{where}##", f"Automation({where}, who={who}).{m}()")
            await sends(s, cam.receive_video(), f"*{who}*0*4001##", f"Camera(4001, who={who}).receive_video()")
            for m, code in CAMERA.items():
                await sends(s, getattr(cam, m)(), f"*{who}*{code}##", f"Camera(4001, who={who}).{m}()")
            await sends(s, cam.display_dial(2, 3), f"*{who}*323##", f"Camera(4001, who={who}).display_dial(2, 3)")
            await sends(s, Automation(c, where).up(), f"*2*1*{where}##", "Automation.up() of another item")
            await sends(s, Camera(c, "4001").zoom_in(), "*7*120##", "Camera.zoom_in() of another item")

    run_session(body)
    rep.count(states=2 * len(CAMERA), transitions=2 * len(CAMERA), traces=2 * len(CAMERA))


def dials(rep, where, lo, hi):
    async def body(c, s):
        cam = Camera(c, where)
        for x, y in itertools.product(range(lo, hi), repeat=2):
            what = f"Camera({where}).display_dial({x}, {y})"
            if 1 <= x <= 4 and 1 <= y <= 4:
                await sends(s, cam.display_dial(x, y), f"*7*3{x}{y}##", what)
                await sends(s, cam.display_dial(y=y, x=x), f"*7*3{x}{y}##", what)
            else:
                await refused(s, lambda: cam.display_dial(x, y), what, ValueError)

    run_session(body)
    n = (hi - lo) ** 2
    rep.count(states=n, transitions=n, traces=n)


def status(rep, where, per):
    answers, want = [], []
    for a, b in itertools.product("012", repeat=2):
        for w, v in itertools.product(WHERES, repeat=2):
            answers += [f"*2*{a}*{w}##", f"*2*{b}*{v}##"]
            want += [[w, WhatAutomation(a)], [v, WhatAutomation(b)]]

    async def body(c, s):
        got = await answers_of(
            s, Automation(c, where).get_status, f"*#2*{where}##", answers, f"Automation({where}).get_status()",
            lambda t: [t[0].string, t[1]], per=per,
        )  # fmt: skip
        compare("get_status", answers, got, want)

    run_session(body)
    rep.count(states=len(answers), transitions=len(answers), traces=len(answers))


def automation_events(rep, per):
    out = []
    for a, b in itertools.product("012", repeat=2):
        for w, v in itertools.product(WHERES, repeat=2):
            out += [(f"*2*{a}*{w}##", "automation", [WhatAutomation(a)]), (f"*2*{b}*{v}##", "automation", [WhatAutomation(b)])]
    run_events(rep, out, per_segment=per)


def camera_events(rep, per, wheres):
    out = [(f"*7*{st}*{w}##", "camera", [WhatCamera(st), f"*7*{st}*{w}##"]) for w in wheres for st in STATES]
    run_events(rep, out, norm=lambda a: [a[0], *[str(x) for x in a[1:]]], per_segment=per)


def meanings(rep):
    """The names by which the user recognises the states."""
    for name, code in {"STOP": "0", "UP": "1", "DOWN": "2"}.items():
        if WhatAutomation(code).name != name:
            raise Violation(f"automation state {code} is called {WhatAutomation(code).name}")
    names = {
        "RECEIVE_VIDEO": "0", "FREE_RESOURCES": "9", "ZOOM_IN": "120", "ZOOM_OUT": "121", "INCREASE_X": "130", "DECREASE_X": "131",
        "INCREASE_Y": "140", "DECREASE_Y": "141", "INCREASE_LUMINOSITY": "150", "DECREASE_LUMINOSITY": "151",
        "INCREASE_CONTRAST": "160", "DECREASE_CONTRAST": "161", "INCREASE_COLOR": "170", "DECREASE_COLOR": "171",
        "INCREASE_QUALITY": "180", "DECREASE_QUALITY": "181",
        **{f"DISPLAY_DIAL_{x}{y}": f"3{x}{y}" for x in range(1, 5) for y in range(1, 5)},
    }  # fmt: skip
    for name, code in names.items():
        if WhatCamera(code).name != name:
            raise Violation(f"camera state {code} is called {WhatCamera(code).name}")
    rep.count(states=len(names), transitions=len(names), traces=len(names))


def run(rep, tier):
    thorough = tier == "thorough"
    # first: these histories need processes without registered callbacks
    rep.parallel_each(registrations, lambda: ((ops,) for ops in pairs_of(("automation", "camera"))))
    rep.each(meanings, [()])
    rep.each(automation, [(w,) for w in WHERES])
    rep.each(camera, [(w,) for w in CAMERAS[:: 1 if thorough else 20]])
    rep.each(other_who, [(w, where) for w in sorted(x.value for x in Who) for where in ("12", "#1", "0115#4#01")])
    rep.each(dials, [(w, -3, 9) for w in CAMERAS[:3]] + [("4000", -200 if thorough else -40, 200 if thorough else 60)])
    rep.each(status, [(w, p) for w in WHERES for p in (1, 3, 200)])
    rep.each(automation_events, [(1,), (5,)])
    rep.each(camera_events, [(1, CAMERAS if thorough else CAMERAS[::10]), (6, CAMERAS[:10])], limit=120)
    rep.sample("display_dial(2, 3) -> *7*323##")
