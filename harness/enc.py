"""Independent DMAP encoder for driver inputs (model record -> bytes)."""


def le32(n):
    return list((n & 0xFFFFFFFF).to_bytes(4, "little"))


def encode(rec):
    body = []
    for f in rec["scalars"]:
        body += f["name"] + [0, f["type"]] + f["data"] + ([0] if f["type"] == 9 else [])
    for f in rec["arrays"]:
        body += f["name"] + [0, f["type"]] + le32(len(f["shape"]))
        for n in reversed(f["shape"]):
            body += le32(n)
        body += f["data"]
    return bytes(le32(65537) + le32(16 + len(body)) + le32(len(rec["scalars"])) + le32(len(rec["arrays"])) + body)


def encode_all(recs):
    return b"".join(encode(r) for r in recs)
