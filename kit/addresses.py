#!/usr/bin/env python3
"""Prints the cargo [env] table that gives every baked-in address of the blueprints a fixed value."""
import hashlib
CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
def polymod(v):
    g = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]; c = 1
    for x in v:
        b = c >> 25; c = (c & 0x1ffffff) << 5 ^ x
        for i in range(5): c ^= g[i] if (b >> i) & 1 else 0
    return c
def encode(hrp, data):
    acc = bits = 0; d = []
    for b in data:
        acc = acc << 8 | b; bits += 8
        while bits >= 5: bits -= 5; d.append(acc >> bits & 31)
    if bits: d.append(acc << (5 - bits) & 31)
    h = [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]
    p = polymod(h + d + [0] * 6) ^ 0x2bc830a3
    return hrp + "1" + "".join(CH[x] for x in d + [p >> 5 * (5 - i) & 31 for i in range(6)])
def node(entity, name): return bytes([entity]) + hashlib.sha256(b"surge " + name.encode()).digest()[:29]
out = ["[env]"]
for n in ["AUTHORITY", "BASE_AUTHORITY", "BASE", "LP", "PROTOCOL", "KEEPER_REWARD", "FEE_OATH"]:
    out.append(f'{n}_RESOURCE = "{encode("resource_sim", node(0x5d, n))}"')
for n in ["REFERRAL", "RECOVERY_KEY"]:
    out.append(f'{n}_RESOURCE = "{encode("resource_sim", node(0x9a, n))}"')
for n in ["ORACLE", "CONFIG", "ACCOUNT", "POOL", "REFERRAL_GENERATOR", "FEE_DISTRIBUTOR", "FEE_DELEGATOR", "PERMISSION_REGISTRY"]:
    out.append(f'{n}_PACKAGE = "{encode("package_sim", node(0x0d, n))}"')
    if n != "ACCOUNT": out.append(f'{n}_COMPONENT = "{encode("component_sim", node(0xc0, n + "_C"))}"')
print("\n".join(out))
