"""Generate harness/src/tables.rs: charset tables from independent sources (Python's codecs and glibc iconv).
Run by hand; the output is committed."""
import subprocess, os

def ic(b):
    r = subprocess.run(['iconv', '-f', 'ISO6937', '-t', 'UTF-16BE'], input=b, capture_output=True)
    return int.from_bytes(r.stdout, 'big') if r.returncode == 0 and len(r.stdout) == 2 else 0

def arr(name, vals):
    return "pub static %s: [u16; %d] = [%s];\n" % (name, len(vals), ",".join(str(v) for v in vals))

o = "// generated by tools/gen_charsets.py from Python codecs and iconv; 0 = unassigned\n"
for k in [1,2,3,4,5,6,7,8,9,10,11,13,14,15,16]:
    v = []
    for b in range(0xA0, 0x100):
        try: v.append(ord(bytes([b]).decode('iso8859_%d' % k)))
        except UnicodeDecodeError: v.append(0)
    o += arr("L%d" % k, v)
v = []
for hi in range(0xA1, 0xFF):
    for lo in range(0xA1, 0xFF):
        try: v.append(ord(bytes([hi, lo]).decode('gb2312')))
        except UnicodeDecodeError: v.append(0)
o += arr("GB", v)
# ISO 6937: A4 is the euro sign in the DVB variant, D0 HORIZONTAL BAR / EM DASH, E2 D WITH STROKE / ETH share one glyph
single = [0 if 0xC1 <= b <= 0xCF else ic(bytes([b])) for b in range(0xA0, 0x100)]
single[0x04] = 0x20AC
single[0x30] = 0x2015
single[0x42] = 0x0110
o += arr("S6937", single)
o += arr("P6937", [ic(bytes([d, c])) for d in range(0xC1, 0xD0) for c in range(0x20, 0x80)])
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/src/tables.rs", "w").write(o)
