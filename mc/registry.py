"""Which worlds decide which property."""
from . import w_gen

REGISTRY = {}


def reg(pid, worlds, bounds="", level="model_checking", **kw):
    REGISTRY[pid] = dict(worlds=worlds, bounds=bounds, level=level, **kw)


reg("F01", lambda: [w_gen.GaugeWorld()])
reg("F02", lambda: [w_gen.ObsWorld()])
reg("F03", lambda: [w_gen.RdmWorld()])
reg("F04", lambda: [w_gen.TruncWorld()])
reg("F05", lambda: [w_gen.PrepWorld()])
from . import w_tdvp
reg("F07", lambda: [w_tdvp.TwoSiteWorld()])
reg("F06", lambda: [w_tdvp.TdvpWorld(), w_tdvp.MpoWorld()])
reg("F08", lambda: [w_tdvp.IntegWorld()])
reg("F10", lambda: [w_tdvp.CgWorld()])
from . import w_uni
reg("U01", lambda: [w_uni.UGaugeWorld()])
reg("U02", lambda: [w_uni.UObsWorld()])
reg("U03", lambda: [w_uni.USpecWorld()])
from . import w_uni2
reg("U04", lambda: [w_uni2.UShapeWorld()])
reg("U05", lambda: [w_uni2.UFidWorld()])
from . import w_utdvp
reg("U06", lambda: [w_utdvp.UTdvpWorld()])
from . import w_utdvp2
reg("U07", lambda: [w_utdvp2.UTwoSiteWorld()])
reg("U08", lambda: [w_utdvp2.UIntegWorld()])
from . import w_low
reg("L01", lambda: [w_low.MapWorld(), w_low.MatWorld()])
reg("L02", lambda: [w_low.FacWorld()])
reg("L03", lambda: [w_low.PinvWorld()])
reg("L04", lambda: [w_low.ExpWorld()])
from . import w_drive
reg("F12", lambda: [w_drive.CountWorld(), w_drive.DriveWorld()])
reg("U12", lambda: [w_drive.UDriveWorld()])
from . import w_split
reg("F09", lambda: [w_split.SplitCallWorld(), w_split.SplitWorld()])
from . import w_diss
reg("F11", lambda: [w_diss.DissWorld()])
from . import w_sand
reg("S01", lambda: [w_sand.SGaugeWorld()])
reg("S02", lambda: [w_sand.SObsWorld()])
from . import w_stdvp
reg("S03", lambda: [w_stdvp.STWorld()])
reg("S04", lambda: [w_stdvp.STIntegWorld()])
reg("S05", lambda: [w_stdvp.STSplitWorld()])
from . import w_exc
reg("U10", lambda: [w_exc.ExcWorld(), w_exc.TangentExpWorld(), w_exc.RetryWorld()])
from . import w_ucg
reg("U09", lambda: [w_ucg.UCgWorld(), w_ucg.LineWorld(), w_ucg.CgFaultWorld()])
from . import w_ustore
reg("U11", lambda: [w_ustore.UStoreWorld()])


def _ext():
    from . import w_ext
    return w_ext.worlds()


reg("L05", _ext)
