CC="gocrypt/cryptocore/cryptocore.go"; RP="gocrypt/cryptocore/randprefetch.go"; NO="gocrypt/cryptocore/nonce.go"; HK="gocrypt/cryptocore/hkdf.go"; SV="gocrypt/siv_aead/siv_aead.go"
def b(name,*edits): return dict(name=name,kind="bug",props=["C18"],edits=list(edits))
def r(name,*edits): return dict(name=name,kind="ref",props=[],edits=list(edits))
MUTS=[
b("gcm-eme-label",(CC,"hkdfDerive(key, hkdfInfoGCMContent, KeyLen)","hkdfDerive(key, hkdfInfoEMENames, KeyLen)")),
b("label-const",(HK,'"AES-SIV file content encryption"','"AES-GCM file content encryption"')),
b("hkdf-salt",(HK,"masterkey, nil, []byte(info))","masterkey, []byte(info), nil)")),
b("hkdf-half",(HK,"masterkey, nil,","masterkey[:16], nil,")),
b("keylen-ge",(CC,"len(key) != KeyLen","len(key) < KeyLen")),
b("ivlen",(CC,"IVBitLen / 8","IVBitLen / 8 & 0xc")),
b("noncelen",(CC,"nonceLen: IVLen}","nonceLen: 12}")),
b("siv-key-half",(CC,"s := sha512.Sum512(key)\n\t\t\tkey64 = s[:]","s := sha512.Sum512(key[:16])\n\t\t\tkey64 = s[:]")),
b("siv-384",(CC,"s := sha512.Sum512(key)","s := sha512.Sum512_256(key)"),(CC,"key64 = s[:]","key64 = append(s[:], s[:]...)")),
b("no-reset",(RP,"\tr.buf.Reset()\n","\tr.buf.Reset()\n\tr.buf.Write(fresh)\n")),
b("no-lock-consume",(RP,"have, err = r.buf.Read(out)","have, err = copy(out, fresh), nil")),
b("partial",(RP,"if have == want && err == nil","if have > 0 && err == nil")),
b("worker-same",(RP,"\tfor {\n\t\tr.refill <- RandBytes(prefetchN)\n","\tb := RandBytes(prefetchN)\n\tfor {\n\t\tr.refill <- b\n")),
b("worker-twice",(RP,"\t\tr.refill <- RandBytes(prefetchN)\n","\t\tb := RandBytes(prefetchN)\n\t\tr.refill <- b\n\t\tr.refill <- b\n")),
b("rand-short",(NO,"rand.Read(b)","rand.Read(b[:n/2+4])")),
b("get-cached",(NO,"type nonceGenerator struct {\n","type nonceGenerator struct {\n\tlast []byte\n"),(NO,"\treturn randPrefetcher.read(n.nonceLen)","\tif n.last == nil || n.last[0] < 250 {\n\t\tn.last = randPrefetcher.read(n.nonceLen)\n\t}\n\treturn n.last")),
b("get-first-fixed",(NO,"\treturn randPrefetcher.read(n.nonceLen)","\tb := randPrefetcher.read(n.nonceLen)\n\tb[0] = 0\n\treturn b")),
b("worker-count",(RP,"\t\tr.refill <- RandBytes(prefetchN)\n","\t\tb := RandBytes(prefetchN)\n\t\tselect {\n\t\tcase r.refill <- b:\n\t\t}\n\t\tr.refill <- b[:prefetchN]\n")),
b("siv-key-trunc",(SV,"append([]byte{}, keyIn...)","append([]byte{}, keyIn[:32]...)")),
b("gcm-nohkdf-eme",(CC,"gcmKey = append([]byte{}, key...)","gcmKey = append([]byte{}, key[:16]...)")),
r("hkdf-readfull",(HK,"n, err := h.Read(out)","n, err := io.ReadFull(h, out)"),(HK,'"log"\n','"io"\n\t"log"\n')),
r("key-helper",(CC,"\t\t\tgcmKey = append([]byte{}, key...)","\t\t\tgcmKey = make([]byte, len(key))\n\t\t\tcopy(gcmKey, key)")),
r("eme-helper",(CC,"\t\t\temeBlockCipher, err = aes.NewCipher(emeKey)\n\t\t\tfor i := range emeKey {\n\t\t\t\temeKey[i] = 0\n\t\t\t}","\t\t\temeBlockCipher, err = aes.NewCipher(emeKey)\n\t\t\twipe(emeKey)"),(CC,"type wiper interface","func wipe(b []byte) {\n\tfor i := range b {\n\t\tb[i] = 0\n\t}\n}\n\ntype wiper interface")),
r("switch",(CC,"if aeadType == BackendOpenSSL || aeadType == BackendGoGCM {","if gcm := aeadType == BackendOpenSSL || aeadType == BackendGoGCM; gcm {")),
r("worker-var",(RP,"\t\tr.refill <- RandBytes(prefetchN)\n","\t\tb := RandBytes(prefetchN)\n\t\tr.refill <- b\n")),
r("prefetch-loop",(RP,"\tif have == want && err == nil {\n\t\tr.Unlock()\n\t\treturn out\n\t}","\tif err == nil && have >= want {\n\t\tr.Unlock()\n\t\treturn out\n\t}")),
r("prefetch-defer",(RP,"\tr.Lock()\n","\tr.Lock()\n\tdefer r.Unlock()\n"),(RP,"\t\tr.Unlock()\n\t\treturn out\n","\t\treturn out\n"),(RP,"\tr.Unlock()\n\treturn out\n}\n\nfunc (r *randPrefetcherT) refillWorker","\treturn out\n}\n\nfunc (r *randPrefetcherT) refillWorker")),
r("prefetch-split",(RP,"\tfresh := <-r.refill\n","\tr.refillLocked()\n\thave, err = r.buf.Read(out)\n\tif have != want || err != nil {\n\t\tlog.Panicf(\"short\")\n\t}\n\tr.Unlock()\n\treturn out\n}\n\nfunc (r *randPrefetcherT) refillLocked() {\n\tfresh := <-r.refill\n"),(RP,"\tr.buf.Write(fresh)\n\thave, err = r.buf.Read(out)\n\tif have != want || err != nil {\n\t\tlog.Panicf(\"randPrefetcher could not satisfy read: have=%d want=%d err=%v\", have, want, err)\n\t}\n\tr.Unlock()\n\treturn out\n}","\tr.buf.Write(fresh)\n}")),
r("siv-make",(SV,"key := append([]byte{}, keyIn...)","key := make([]byte, len(keyIn))\n\tcopy(key, keyIn)")),
r("rand-readfull",(NO,"rand.Read(b)","io.ReadFull(rand.Reader, b)"),(NO,'"encoding/binary"\n','"encoding/binary"\n\t"io"\n')),
]
