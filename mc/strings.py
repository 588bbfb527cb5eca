"""Text strings as the PDF specification defines them (independent of the library)."""
import re

# ISO 32000-1 Annex D.2, codes that differ from Latin-1
PDFDOC = {0x18: 0x02D8, 0x19: 0x02C7, 0x1A: 0x02C6, 0x1B: 0x02D9, 0x1C: 0x02DD, 0x1D: 0x02DB, 0x1E: 0x02DA, 0x1F: 0x02DC,
          0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021, 0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x0192, 0x87: 0x2044,
          0x88: 0x2039, 0x89: 0x203A, 0x8A: 0x2212, 0x8B: 0x2030, 0x8C: 0x201E, 0x8D: 0x201C, 0x8E: 0x201D, 0x8F: 0x2018,
          0x90: 0x2019, 0x91: 0x201A, 0x92: 0x2122, 0x93: 0xFB01, 0x94: 0xFB02, 0x95: 0x0141, 0x96: 0x0152, 0x97: 0x0160,
          0x98: 0x0178, 0x99: 0x017D, 0x9A: 0x0131, 0x9B: 0x0142, 0x9C: 0x0153, 0x9D: 0x0161, 0x9E: 0x017E, 0xA0: 0x20AC}
UNDEFINED = {0x7F, 0x9F, 0xAD}          # no character in PDFDocEncoding


def string_bytes(s):
    """Bytes denoted by a string token, character by character (ISO 32000-1 7.3.4)."""
    if s[:1] == b'<':
        d = re.sub(rb'[\x00\t\n\x0c\r ]', b'', s[1:-1])
        return bytes.fromhex((d + b'0' * (len(d) % 2)).decode())
    out = bytearray()
    i, end = 1, len(s) - 1
    esc = {0x6E: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12, 0x28: 0x28, 0x29: 0x29, 0x5C: 0x5C}
    while i < end:
        c = s[i]
        if c == 0x5C:
            i += 1
            c = s[i]
            if 0x30 <= c <= 0x37:
                v = 0
                n = 0
                while n < 3 and i < end and 0x30 <= s[i] <= 0x37:
                    v = v * 8 + s[i] - 0x30
                    i += 1
                    n += 1
                out.append(v & 255)
                continue
            if c in esc:
                out.append(esc[c])
            elif c == 13:
                if s[i + 1] == 10 and i + 1 < end:
                    i += 1
            elif c == 10:
                pass
            else:
                out.append(c)
            i += 1
        elif c == 13:
            out.append(10)
            i += 1
            if i < end and s[i] == 10:
                i += 1
        else:
            out.append(c)
            i += 1
    return bytes(out)


def text(s):
    b = string_bytes(s)
    if b[:2] == b'\xfe\xff':
        return b[2:].decode('utf-16-be')
    return ''.join(chr(PDFDOC.get(c, c)) for c in b)
