CE="gocrypt/contentenc/content.go"; FH="gocrypt/contentenc/file_header.go"; NA="gocrypt/nametransform/names.go"; PA="gocrypt/nametransform/pad16.go"; SV="gocrypt/siv_aead/siv_aead.go"
MUTS=[
 dict(name="w-first-low",kind="bug",props=["C25"],edits=[(CE,"firstBlockNo+uint64(low), fileID)","firstBlockNo+uint64(i*groupSize/2*2), fileID)")]),
 dict(name="w-no-low",kind="bug",props=["C25"],edits=[(CE,"firstBlockNo+uint64(low), fileID)","firstBlockNo, fileID)")]),
 dict(name="w-last",kind="bug",props=["C25"],edits=[(CE,"if i == ncpu-1 {","if i == encryptMaxSplit-1 && ncpu > encryptMaxSplit {")]),
 dict(name="w-nowait",kind="bug",props=["C25"],edits=[(CE,"				be.doEncryptBlocks(plaintextBlocks[low:high]","				wg.Done()\n				be.doEncryptBlocks(plaintextBlocks[low:high]"),(CE,"fileID)\n				wg.Done()","fileID)")]),
 dict(name="w-num",kind="bug",props=["C25"],edits=[(CE,"out[i] = be.EncryptBlock(v, firstBlockNo+uint64(i), fileID)","out[i] = be.EncryptBlock(v, firstBlockNo+uint64(uint8(i)), fileID)")]),
 dict(name="w-nonce-twice",kind="bug",props=["C25"],edits=[(CE,"be.cryptoCore.AEADCipher.Seal(cBlock, nonce, plaintext, aData)","be.cryptoCore.AEADCipher.Seal(cBlock, cBlock, plaintext[:len(plaintext):len(plaintext)], aData[:8])")]),
 dict(name="w-aad",kind="bug",props=["C25","C01"],edits=[(CE,"	binary.BigEndian.PutUint64(aData, blockNo)","	binary.LittleEndian.PutUint64(aData, blockNo)")]),
 dict(name="w-pack",kind="bug",props=["C25"],edits=[(FH,"	binary.BigEndian.PutUint16(buf[0:headerVersionLen], h.Version)","	binary.LittleEndian.PutUint16(buf[0:headerVersionLen], h.Version)")]),
 dict(name="w-packid",kind="bug",props=["C25"],edits=[(FH,"	copy(buf[headerVersionLen:], h.ID)","	copy(buf[headerVersionLen:], h.ID[1:])")]),
 dict(name="w-randid",kind="bug",props=["C25"],edits=[(FH,"cryptocore.RandBytes(headerIDLen)","append(cryptocore.RandBytes(headerIDLen-1), 0)")]),
 dict(name="w-pad",kind="bug",props=["C25"],edits=[(PA,"	for i := oldLen; i < newLen; i++ {","	for i := oldLen + 1; i < newLen; i++ {")]),
 dict(name="w-pad2",kind="bug",props=["C25"],edits=[(PA,"padLen := aes.BlockSize - oldLen%aes.BlockSize","padLen := (aes.BlockSize - oldLen%aes.BlockSize) % aes.BlockSize")]),
 dict(name="w-b64",kind="bug",props=["C25"],edits=[(NA,"	cipherName64 = n.B64.EncodeToString(bin)","	cipherName64 = base64.RawURLEncoding.EncodeToString(bin)")]),
 dict(name="w-sealad",kind="bug",props=["C25"],edits=[(SV,"	associated := [][]byte{authData, nonce}\n	out","	associated := [][]byte{nonce, authData}\n	out")]),
 dict(name="r-pad-append",kind="ref",edits=[(PA,"	newLen := oldLen + padLen\n	padded = make([]byte, newLen)\n	copy(padded, orig)\n	padByte := byte(padLen)\n	for i := oldLen; i < newLen; i++ {\n		padded[i] = padByte\n	}\n	return padded","	return append(orig, bytes.Repeat([]byte{byte(padLen)}, padLen)...)"),(PA,'import (\n','import (\n	"bytes"\n')]),
 dict(name="r-pad-noif",kind="ref",edits=[(PA,"	if padLen == 0 {\n		padLen = aes.BlockSize\n	}\n	newLen","	newLen")]),
 dict(name="r-enc-loop",kind="ref",edits=[(CE,"	for i, v := range in {\n		out[i] = be.EncryptBlock(v, firstBlockNo+uint64(i), fileID)\n	}","	blockNo := firstBlockNo\n	for i := 0; i < len(in); i++ {\n		out[i] = be.EncryptBlock(in[i], blockNo, fileID)\n		blockNo++\n	}")]),
 dict(name="r-enc-defer",kind="ref",edits=[(CE,"				low := i * groupSize","				defer wg.Done()\n				low := i * groupSize"),(CE,"fileID)\n				wg.Done()","fileID)")]),
 dict(name="r-enc-helper",kind="ref",edits=[(CE,"""			go func(i int) {
				low := i * groupSize
				high := (i + 1) * groupSize
				if i == ncpu-1 {
					// Last group, pick up any left-over blocks
					high = len(plaintextBlocks)
				}
				be""","""			low := i * groupSize
			high := low + groupSize
			if i == ncpu-1 {
				high = len(plaintextBlocks)
			}
			go func(low, high int) {
				be"""),(CE,"			}(i)","			}(low, high)")]),
 dict(name="r-pack-append",kind="ref",edits=[(FH,"	buf := make([]byte, HeaderLen)\n	binary.BigEndian.PutUint16(buf[0:headerVersionLen], h.Version)\n	copy(buf[headerVersionLen:], h.ID)\n	return buf","	buf := make([]byte, headerVersionLen, HeaderLen)\n	binary.BigEndian.PutUint16(buf, h.Version)\n	return append(buf, h.ID...)")]),
 dict(name="r-concat-join",kind="ref",edits=[(CE,"	for _, v := range ciphertextBlocks {\n		out.Write(v)\n","	for i := range ciphertextBlocks {\n		v := ciphertextBlocks[i]\n		out.Write(v)\n")]),
 dict(name="r-seal-nil",kind="ref",edits=[(CE,"	cBlock := be.cBlockPool.Get()\n	copy(cBlock, nonce)\n	cBlock = cBlock[0:len(nonce)]","	cBlock := append(be.cBlockPool.Get()[:0], nonce...)")]),
]
