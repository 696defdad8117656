from csxlib import Job
TITLE = "Loading any image is safe and key lookups are exact inverses"
BOUNDS = {"quick": "every image of up to 18 bytes; every header and string area (8 bytes of strings) after a valid magic, at offsets below 16, at 16 and behind 65536 and 2^24; more than 256 keys; all key ids; names of up to 3 bytes; missing arguments", "thorough": "images of up to 24 bytes, string areas of up to 10 bytes"}
H = '#include "image.h"\n'
ANY = H + '''int harness(void) { csxh_n = csx_pick(csx_param(0), csx_param(1), "length"); csxh_i = malloc(csxh_n ? csxh_n : 1); csx_bytes(csxh_i, csxh_n, "image");
  if (im_load(1)) im_name(csx_u16("key")); return 0; }
'''
TAB = H + '''int harness(void) { size_t so = csx_param(0), k = csx_param(1); csxh_n = so + k; if (csxh_n < 16) csxh_n = 16; csxh_i = calloc(1, csxh_n);
  memcpy(csxh_i, "CNDIL\\1", 6); csxh_i[8] = so; csxh_i[9] = so >> 8; csxh_i[10] = so >> 16; csxh_i[11] = so >> 24; csx_bytes(csxh_i + 6, 2, "count"); csx_bytes(csxh_i + so, k, "strings");
  if (csx_param(3)) csxh_i[12] = so, csxh_i[13] = so >> 8, csxh_i[14] = so >> 16, csxh_i[15] = so >> 24;
  if (im_load(1)) { if (csx_param(2)) { static char s[8]; size_t l = csx_pick(0, 3, "name length"); csx_bytes(s, l, "name"); im_id(s); } else im_name(csx_u16("key")); } return 0; }
'''
OFF = H + '''int harness(void) { csxh_n = 24; csxh_i = calloc(1, csxh_n); memcpy(csxh_i, "CNDIL\\1", 6); csxh_i[6] = csx_param(0); csx_bytes(csxh_i + 8, 8, "offsets"); memcpy(csxh_i + 16, "ab\\0\\0cd\\0", 7);
  if (im_load(1)) im_name(csx_u16("key")); return 0; }
'''
MANY = H + '''int harness(void) { size_t k = csx_param(0); csxh_n = 16 + 3 * k; csxh_i = calloc(1, csxh_n); memcpy(csxh_i, "CNDIL\\1", 6); csxh_i[6] = k; csxh_i[7] = k >> 8; csxh_i[8] = 16; csxh_i[12] = 16;
  for (size_t i = 0; i < k; i++) { csxh_i[16 + 3 * i] = 'a' + i % 20; csxh_i[17 + 3 * i] = 'a' + i / 20; }
  if (im_load(1)) { if (csx_param(1)) { static char s[3]; csx_bytes(s, 2, "name"); csx_assume(s[0] >= 'a' && s[1] >= 'a'); im_id(s); } else { uint16_t key = csx_u16("key"); if (key < k) key = (uint16_t)csx_concrete(key); im_name(key); } } return 0; }
'''
NONE = H + '''int harness(void) { csxh_n = 20; csxh_i = calloc(1, 20); csx_bytes(csxh_i, 20, "image");
  csx_assert(cnd_program_load_il(&csxh_prog, 0, 20) != CND_ERR_OK && cnd_program_load_il(0, csxh_i, 20) != CND_ERR_OK, "a missing image is accepted");
  csx_assert(cnd_get_key_name(0, csx_u16("key")) == 0 && cnd_get_key_id(0, "a") == 0xFFFF, "lookup without a program");
  cnd_program_load(0, csxh_i, 20); cnd_program_load(&csxh_prog, csxh_i, 20);
  csx_assert(csxh_prog.bytecode == csxh_i && csxh_prog.bytecode_len == 20, "the program is not the given byte-code");
  static char s[4]; csx_bytes(s, 3, "name");
  csx_assert(cnd_get_key_name(&csxh_prog, csx_u16("key")) == 0, "a program without names has a name"); csx_assert(cnd_get_key_id(&csxh_prog, s) == 0xFFFF && cnd_get_key_id(&csxh_prog, 0) == 0xFFFF, "a program without names has an id");
  csx_assert(cnd_verify_program(0) != CND_ERR_OK, "a missing program is verified"); cnd_program_load(&csxh_prog, 0, 0); csx_assert(cnd_verify_program(&csxh_prog) != CND_ERR_OK, "a missing program is verified");
  csx_reach("done"); return 0; }
'''


def make(tier, seed):
    q = tier == "quick"
    top = 18 if q else 24
    out = [Job("missing", None, text=NONE, must=["done"])]
    for lo, hi in ((0, 15), (16, 16), (17, 17), (18, 18)) if q else ((0, 15),) + tuple((i, i) for i in range(16, 25)):
        out.append(Job("any%d-%d" % (lo, hi), None, text=ANY, params=[lo, hi], time=300, must=["rejected"] + (["accepted"] if hi > 15 else [])))
    k = 7 if q else 9
    for so in (0, 6, 12, 16, 17, 300, 0x10010, 0x1000010):
        for name in (0, 1):
            for bc in (0, 1):
                if bc and so != 16:
                    continue
                kk = k if so in (16, 17, 0x10010) else 4
                out.append(Job("strings@%x-%s%d" % (so, "id" if name else "name", bc), None, text=TAB, params=[so, kk, name, bc], time=300, must=["rejected", "accepted"] if so >= 12 else ["rejected"]))
    for c in (0, 1, 2, 3):
        out.append(Job("offsets%d" % c, None, text=OFF, params=[c], time=300, must=["rejected", "accepted"]))
    for c in (255, 256, 257, 290):
        out += [Job("many%d-%s" % (c, "id" if n else "name"), None, text=MANY, params=[c, n], time=300, must=["accepted"] + (["id", "no id"] if n else ["name", "no name"])) for n in (0, 1)]
    return out
