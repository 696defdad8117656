from gen import *
TITLE = "CRC fields equal the declared CRC of all preceding bytes; mismatches are caught"
BOUNDS = {"quick": "all data of 0..6 bytes before the CRC, parameter grid incl. all flag combinations; fully symbolic parameters over 1 byte", "thorough": "12 bytes; symbolic parameters over 2 bytes"}

# parameters, flags, data and stored checksum all symbolic (program built from the documented instruction layout)
SYM = r'''
#include "codec.h"
static uint8_t prog[32];
void harness(void) {
  const int n = %(n)d, w = %(w)d;
  size_t l = 0; uint8_t par[13]; csx_bytes(par, %(pl)d, "parameters"); par[%(pl)d - 1] &= 3;
  if (%(be)d) prog[l++] = OP_SET_ENDIAN_BE;
  for (int i = 0; i < n; i++) { prog[l++] = OP_IO_U8; prog[l++] = (uint8_t)i; prog[l++] = 0; }
  prog[l++] = w == 16 ? OP_CRC_16 : OP_CRC_32; memcpy(prog + l, par, %(pl)d); l += %(pl)d;
  cnd_program p; memset(&p, 0, sizeof p); cnd_program_load(&p, prog, l);
  uint64_t poly = 0, init = 0, xo = 0; for (int i = 0; i < w / 8; i++) { poly |= (uint64_t)par[i] << (8 * i); init |= (uint64_t)par[w / 8 + i] << (8 * i); xo |= (uint64_t)par[w / 4 + i] << (8 * i); }
  int mode = (int)csx_pick(0, 1, "mode"); uint8_t buf[16], ob[16]; csx_bytes(buf, n + w / 8, "message"); memcpy(ob, buf, 16 < sizeof buf ? 16 : n + w / 8);
  csxh_failat = -1; csxh_data = buf; csxh_len = n + w / 8;
  cnd_vm_ctx c; memset(&c, 0, sizeof c); cnd_init(&c, mode ? CND_MODE_DECODE : CND_MODE_ENCODE, &p, buf, n + w / 8, cd_cb, 0);
  int st = cnd_execute(&c);
  uint8_t fl = par[%(pl)d - 1];
  memset(&O, 0, sizeof O); O.b = buf; O.n = n + w / 8;
  uint64_t want = o_crc(n, w, poly, init, xo, fl & 1, fl >> 1 & 1), wire = 0;
  for (int i = 0; i < w / 8; i++) wire |= (uint64_t)buf[n + (%(be)d ? w / 8 - 1 - i : i)] << (8 * i);
  if (!mode) { csx_assert(st == CND_ERR_OK && wire == want, "the checksum written is not the declared one"); csx_reach("written"); }
  else { csx_assert(st == (wire == want ? CND_ERR_OK : CND_ERR_CRC_MISMATCH), wire == want ? "a correct checksum is rejected" : "a wrong checksum is accepted"); csx_reach(wire == want ? "accepted" : "refused"); }
}
'''


def make(tier, seed):
    out = []
    q = tier == "quick"
    fl = [(a, b) for a in (False, True) for b in (False, True)]
    grid = []
    for w in (16, 32):
        ps = [(None, None, None), (0x8005, 0, 0), (0x1021, 0xFFFF, 0xFFFF), (0x8BB7, 0x1D0F, 0xAAAA)] if w == 16 else [(None, None, None), (0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF), (0x814141AB, 0, 0), (0x04C11DB7, 0xFFFFFFFF, 0)]
        for i, (p, n, x) in enumerate(ps):
            for f in fl:
                if p is None and w == 32 and f != (True, True) and f != (False, False):
                    continue
                grid.append((w, p, n, x, f, i))
    for w, p, n, x, (ri, ro), i in grid:
        def cr(name, ov=None):
            c = Crc(w, name, p, n, x, ri, ro, ov)
            return c
        for pre in ("", "@big_endian"):
            k = len(out)
            nd = (3, 0, 6, 1, 2)[(k // 2) % 5] if q else 6
            data = [Arr("uint8", "v", ("fix", nd))] if nd else []
            out += jobs("crc%d-%s-%s-%s-%d%d%s" % (w, p, n, x, ri, ro, "-be" if pre else ""), Packet(data + [cr("c", (None, "le", "be")[k % 3]), I("uint8", "z")], pre=pre), nd + w // 8 + 1, lo=nd + w // 8, must=["ok", "short"])
    mk = lambda: [I("uint16", "k"), Crc(16, "c"), I("uint8", "m"), Crc(32, "d", ov="be")]
    out += contexts("ctx", mk, 9, which="tsiwb" if q else "tsaiwb", time=300)
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        out += jobs("mixed" + b, Packet([I("uint8", "a", width=3), Pad(2), Fill(), Arr("uint8", "v", ("pre", "uint8")), Crc(16, "c", 0x8005, 0, 0, True, True), I("uint8", "z")], pre=pre), 7 if q else 9, lo=6, time=400)
        out += jobs("after-bits" + b, Packet([I("uint8", "a", width=3), Crc(32, "c"), I("uint8", "z", width=4), Crc(16, "d")], pre=pre), 9, lo=7, time=400)
    for w in (16, 32):
        for be in (0, 1):
            for n in (0, 1, 2) if not q else (0, 1) if w == 16 else (1,):
                out.append(Job("symbolic-crc%d-%d%s" % (w, n, "-be" if be else ""), None, group="vm", time=600, weight=5, must=["written", "accepted", "refused"], text=SYM % dict(n=n, w=w, be=be, pl=3 * w // 8 + 1)))
    return out
