"""Planted bugs, tenth round."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H = _two["H"]
SPECS = []
C, SEC = "elgas/connection.py", "elgas/security.py"


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


bug("c08-key-leading-zero", "C08", "a key whose first byte is zero and others are not",
    "requests are encrypted from another starting value than the device uses",
    [(SEC, '        cipher_text = encrypt(to_cipher, self.key, self.key)', '        cipher_text = encrypt(\n            to_cipher, self.key, self.key.lstrip(b"\\x00").rjust(16, b"\\x01")\n        )')], '''
for key in (bytes(range(1, 17)), bytes(range(16)), b"\\x00" * 16):
    x = security.CipherContext(3, key)
    assert bytes(x.decrypt(x.encrypt(b"abcdef"))) == b"abcdef", key
''')

bug("c26-no-password", "C26", "a connection created with None as its password",
    "a connection without any password is created and fails at every request",
    [(C, "password: str = attr.ib(validator=[attr.validators.max_len(6)])", "password: str = attr.ib(\n        validator=[attr.validators.optional(attr.validators.max_len(6))]\n    )")], '''
def make(pw):
    return connection.ElgasConnection(source_address_1=0, source_address_2=0, destination_address_1=0, destination_address_2=0, password=pw, password_id=810)


make("abcdef")
for bad in (None, 5, "abcdefg"):
    try:
        make(bad)
    except Exception:
        continue
    raise SystemExit("accepted %r" % (bad,))
''')
