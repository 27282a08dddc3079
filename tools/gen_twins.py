"""fixtures/twins.json: pairs of SSH keys whose four-byte tags in a file coincide (found by a birthday search, fixed once)"""
import hashlib, json, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from mon import gen, ref
from cryptography.hazmat.primitives.asymmetric import ed25519
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

rng = __import__("random").Random(11)
tag = lambda w: hashlib.sha256(w).digest()[:4]
out = {"rsa": [], "ed25519": []}
seen = {}
names = ["rsa1024e65537", "rsa1024e3", "rsa2048e65537"]
pool = gen.rsa_pool()
names = [n for n in names if n in pool]
nums = {n: pool[n].private_numbers() for n in names}
while len(out["rsa"]) < 24:
    n = rng.choice(names)
    e = rng.randrange(3, 1 << 30) | 1
    k = nums[n]
    if math.gcd(e, (k.p - 1) * (k.q - 1)) != 1:
        continue
    t = tag(ref.rsa_wire(k.public_numbers.n, e))
    if t in seen and seen[t] != (n, e):
        out["rsa"].append([list(seen[t]), [n, e]])
    seen[t] = (n, e)
seen = {}
while len(out["ed25519"]) < 24:
    s = rng.randbytes(32)
    pk = ed25519.Ed25519PrivateKey.from_private_bytes(s).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
    t = tag(ref.ed_wire(pk))
    if t in seen:
        out["ed25519"].append([seen[t].hex(), s.hex()])
    seen[t] = s
json.dump(out, open(os.path.join(os.path.dirname(__file__), "../fixtures/twins.json"), "w"))
