"""Event frames, the kind of callback each one reaches and the arguments it carries."""
import datetime
import ipaddress

from .util import ACK, NACK
from pyown.items.energy.dataclass import ActuatorStatus, StopGoStatus

tz = datetime.timezone
UTC1 = tz(datetime.timedelta(hours=1))

# frame -> (kind of callback or None, arguments)
EVENTS = {
    "*1*1*12##": ("light_status", (True,)),
    "*1*0*12##": ("light_status", (False,)),
    "*1*5*0115#4#01##": ("light_status", (True,)),
    "*#1*12*1*150*20##": ("light_luminosity", (150, 20)),
    "*#1*12*2*1*2*3##": ("light_temporization", (1, 2, 3)),
    "*#1*13*12*300*40*50##": ("light_hsv", (300, 40, 50)),
    "*#1*13*14*250##": ("light_white", (250,)),
    "*2*0*12##": ("automation", ("0",)),
    "*2*1*77##": ("automation", ("1",)),
    "*2*2*12##": ("automation", ("2",)),
    "*7*0*4000##": ("camera", ("0", "*7*0*4000##")),
    "*7*311*4001##": ("camera", ("311", "*7*311*4001##")),
    "*#13**0*21*10*05*001##": ("gateway_TIME", (datetime.time(21, 10, 5, tzinfo=UTC1),)),
    "*#13**1*04*09*12*2021##": ("gateway_DATE", (datetime.date(2021, 12, 9),)),
    "*#13**10*192*168*1*35##": ("gateway_IP_ADDRESS", (ipaddress.IPv4Address("192.168.1.35"),)),
    "*#13**11*255*255*255*0##": ("gateway_NET_MASK", ("255.255.255.0",)),
    "*#13**12*0*3*80*0*10*255##": ("gateway_MAC_ADDRESS", ("00:03:50:00:0A:FF",)),
    "*#13**15*4##": ("gateway_DEVICE_TYPE", ("4",)),
    "*#13**16*1*2*3##": ("gateway_FIRMWARE_VERSION", ("1.2.3",)),
    "*#13**19*1*2*3*4##": ("gateway_UPTIME", (datetime.timedelta(1, 4, 0, 0, 3, 2),)),
    "*#13**22*12*30*01*001*04*09*12*2021##": (
        "gateway_DATE_TIME", (datetime.datetime(2021, 12, 9, 12, 30, 1, tzinfo=UTC1),),
    ),
    "*#13**23*2*6*30##": ("gateway_KERNEL_VERSION", ("2.6.30",)),
    "*#13**24*1*0*7##": ("gateway_DISTRIBUTION_VERSION", ("1.0.7",)),
    "*#13**#0*21*10*05*001##": ("gateway_TIME", (datetime.time(21, 10, 5, tzinfo=UTC1),)),
    "*#18*51*113*1234##": ("energy_power", (1234.0,)),
    "*#18*51*51*77##": ("energy_unit_total", (77.0,)),
    "*#18*52*52#21#4*88##": ("energy_unit_month", (4, 21, 88.0)),
    "*#18*51*53*6##": ("energy_partial_month", (6.0,)),
    "*#18*51*54*5##": ("energy_partial_day", (5.0,)),
    "*#18*71#0*71*1*0*1*0*1*2##": ("energy_actuator", (ActuatorStatus(True, False, True, False, True, False),)),
    "*#18*71#0*72#2*4500*01*02*2021*03*04##": ("energy_totalizer", (2, datetime.datetime(2021, 2, 1, 3, 4), 4500.0)),
    "*#18*71#0*73*2##": ("energy_diff", (2,)),
    "*#18*11*250*0000000000001##": (
        "energy_stop_go", (StopGoStatus(True, *[False] * 12),),
    ),
    "*#18*51*511#4#9*25*65535##": ("energy_daily", (9, 4, 25, 65535.0)),
    "*#18*51*512#4*7*11##": ("energy_month_avg", (4, 7, 11.0)),
    "*#18*51*513#4*7*11##": ("energy_month_cur", (4, 7, 11.0)),
    "*#18*51*514#4*7*11##": ("energy_month_last", (4, 7, 11.0)),
    # nothing of the following reaches a callback
    ACK: (None, ()),
    NACK: (None, ()),
    "*99*1##": (None, ()),
    "*98*2##": (None, ()),
    "*#603356072##": (None, ()),
    "*77*1*2##": (None, ()),  # unknown WHO
    "*4*1*2##": (None, ()),  # WHO without items
    "*#4*2*0*0200##": (None, ()),
    "*25*21*12##": (None, ()),
    "*1001*1*12##": (None, ()),
    "*2*7*12##": (None, ()),  # invalid WHAT
    "*7*999*4000##": (None, ()),
    "*7*9##": (None, ()),  # without WHERE
    "*#13**0*99*10*05*001##": (None, ()),  # invalid values
    "*#13**0*21*10##": (None, ()),
    "*#13**1*04*32*12*2021##": (None, ()),
    "*#13**10*192*168*1*256##": (None, ()),
    "*#13**99*1##": (None, ()),  # unknown dimension
    "*#1*12*2*1##": (None, ()),  # missing values
    "*#1*12*99*1##": (None, ()),
    "*#18*51*999*1##": (None, ()),
    "*#18*71#0*72#2*4500*31*02*2021*03*04##": (None, ()),
    "*#18*51*511*25*65535##": (None, ()),
    "*#18*99*113*1##": (None, ()),  # invalid WHERE
    "*#18*0*113*1##": (None, ()),
    "*18*71*51##": (None, ()),  # kind without callbacks
}  # fmt: skip


def norm(kind, args):
    if kind == "camera":
        return [str(a) for a in args]
    if kind == "automation" or kind == "gateway_DEVICE_TYPE":
        return [str(args[0]), *args[1:]]
    return list(args)
