"""Files written by the original tree (dfc30c0), committed as fixtures/old (PYTHONPATH = that tree)."""
import glob, io, json, os, sys, base64
from cryptography.hazmat.primitives.serialization import load_pem_private_key
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from age.file import Encryptor
from age.keys.agekey import AgePrivateKey
from age.keys.ed25519 import Ed25519PrivateKey
from age.keys.rsa import RSAPrivateKey
from age.keys.password import PasswordKey
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey as E
import hashlib
out = []
def sk(i): return hashlib.sha256(b"old%d" % i).digest()
def rsa(n): return RSAPrivateKey(load_pem_private_key(open(f"{V}/fixtures/{n}.pem","rb").read(), None))
rs = sorted(os.path.basename(p)[:-4] for p in glob.glob(V+"/fixtures/rsa*.pem"))
for i in range(40):
    spec, keys = [], []
    for j in range(1 + i % 3):
        k = (i + j) % 4
        if k == 0: spec.append(["x25519", sk(i*7+j).hex()]); keys.append(AgePrivateKey.from_private_bytes(sk(i*7+j)).public_key())
        elif k == 1: spec.append(["ssh-ed25519", sk(i*7+j).hex()]); keys.append(Ed25519PrivateKey(E.from_private_bytes(sk(i*7+j))).public_key())
        elif k == 2: n = rs[(i//2) % len(rs)]; spec.append(["ssh-rsa", n]); keys.append(rsa(n).public_key())
        elif i % 8 == 3: spec.append(["scrypt", b"old pass".hex()]); keys.append(PasswordKey(b"old pass"))
    if not keys: continue
    n = [1, 2, 16, 100, 4000, 65535, 65536, 65537, 131072][i % 9] if i % 9 < 5 or i > 35 else i * 11 + 1
    pt = hashlib.shake_256(b"pt%d" % i).digest(n)
    b = io.BytesIO()
    with Encryptor(keys, b) as e: e.write(pt)
    out.append({"spec": spec, "n": n, "i": i, "file": base64.b64encode(b.getvalue()).decode()})
json.dump(out, open(V+"/fixtures/old/files.json","w"), indent=0)
print(len(out))
