import checks_cache as c
CHECKS = {"C01": c.c01, "C02": c.c02, "C03": c.c03, "C04": c.c04, "C05": c.c05, "C06": c.c06, "C07": c.c07, "C08": c.c08,
          "C09": c.c09, "C10": c.c10, "C17": c.c17, "C18": c.c18}

_T = "TLA+ model (TLC exhaustive, small constants) + model behaviours and seeded histories executed on the real code, every recorded trace decided by the TLA+ acceptor CacheTrace"
_N = ("The specification CacheCore/MCCache is checked exhaustively for small constants; conformance of the code is decided by TLC for every recorded trace "
      "(bounded, seeded exploration plus a cover of the model's state graph). Trusted: TLC, the executor that records the traces, the link-time clock. ")
NOTES = {
 "C01": (_T, _N), "C02": (_T, _N), "C03": (_T, _N), "C04": (_T, _N + "64-bit numbers are modelled as digit sequences."),
 "C05": (_T, _N + "Time is a controlled clock, also ticking inside operations."), "C06": (_T, _N), "C07": (_T, _N), "C08": (_T, _N), "C09": (_T, _N), "C10": (_T, _N),
 "C17": (_T, _N + "Executed through the C API."), "C18": (_T, _N),
}
import checks_alloc
CHECKS["C11"] = checks_alloc.c11
NOTES["C11"] = ("TLA+ design model PageAlloc (TLC exhaustive) + histories of the real allocator decided by the TLA+ acceptor AllocTrace", _N.replace("CacheCore/MCCache", "PageAlloc"))

import checks_server as s, checks_misc as m
CHECKS.update({"C12": s.c12, "C13": s.c13, "C14": s.c14, "C15": s.c15, "C16": s.c16, "C19": m.c19, "C20": m.c20, "C21": m.c21, "C22": m.c22})
_P = " + sessions against the real daemon over its sockets, every recorded history decided (linearized) by the TLA+ acceptor ProtoTrace"
_PN = ("The recorded histories are bounded and seeded; TLC decides for each whether Proto/CacheCore has a behaviour with these replies. Replies not received within 12 s count as missing. "
       "Trusted: TLC, the driver that records the sessions, the link-time clock.")
NOTES["C12"] = ("TLA+ protocol specification Proto/CacheCore" + _P, _PN)
NOTES["C13"] = ("TLA+ design model StreamConn (TLC exhaustive)" + _P, _PN)
NOTES["C14"] = ("TLA+ protocol specification Proto with the error rules" + _P, _PN)
NOTES["C15"] = ("TLA+ design model UdpServer (TLC exhaustive)" + _P, _PN)
NOTES["C16"] = ("TLA+ design model Reactor (TLC exhaustive)" + _P, _PN)
NOTES["C22"] = ("TLA+ design model Signals (TLC exhaustive, liveness)" + _P, _PN)
NOTES["C19"] = ("TLA+ specification Config (checked by TLC) + creations, fills and daemon starts of the real code decided by the TLA+ acceptor ConfigTrace", "Bounded set of configurations, borders of every rule included; memory sizes above 8 GB are not decided. Trusted: TLC, executor and driver.")
NOTES["C20"] = ("TLA+ model IoBuf/MCIoBuf (TLC exhaustive) + histories of the real io_buffer and slice decided by the TLA+ acceptor IoBufTrace", "Bounded, seeded histories with borders; contents are compared as runs of bytes. Trusted: TLC, the executor.")
NOTES["C21"] = ("TLA+ specification Decimal on digit sequences (TLC exhaustive on small widths) + conversions of the real code decided by the TLA+ acceptor ConvTrace", "All values of the 8 bit types, blocks of the 16 bit types (all in thorough), borders and seeded values of the wider types, all texts of up to two bytes. Trusted: TLC, the executor.")
