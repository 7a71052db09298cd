package ref

import (
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"strings"

	"crypto/aes"
	"crypto/cipher"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/scrypt"
	"gopkg.in/yaml.v2"
)

var B64 = base64.StdEncoding.EncodeToString

// PKHash is the key hint.
func PKHash(pk []byte) []byte {
	h := sha256.Sum256(pk)
	return h[:16]
}

// PrivYAML are the fields of a private key file.
type PrivYAML struct {
	Comment string `yaml:"comment,omitempty"`
	Esk     string `yaml:"esk"`
	Salt    string `yaml:"salt"`
	Algo    string `yaml:"algo"`
	N       int    `yaml:"Z"`
	R       int    `yaml:"r"`
	P       int    `yaml:"p"`
}

// MakePriv encrypts a private key with the given scrypt cost.
func MakePriv(sk ed25519.PrivateKey, pw []byte, comment string, n, r, p int) *PrivYAML {
	salt := Rand(32)
	pass := sha512.Sum512(pw)
	key, err := scrypt.Key(pass[:], salt, n, r, p, 32)
	if err != nil {
		panic(err)
	}
	esk := gcm(key).Seal(nil, salt[:12], sk, nil)
	return &PrivYAML{comment, B64(esk), B64(salt), "scrypt-sha256", n, r, p}
}

// Bytes is the YAML text.
func (y *PrivYAML) Bytes() []byte {
	b, err := yaml.Marshal(y)
	if err != nil {
		panic(err)
	}
	return b
}

// OpenPriv decrypts a private key file.
func OpenPriv(b, pw []byte) (ed25519.PrivateKey, string, error) {
	var y PrivYAML
	if err := yaml.Unmarshal(b, &y); err != nil {
		return nil, "", err
	}
	salt, err := base64.StdEncoding.DecodeString(y.Salt)
	if err != nil || len(salt) != 32 {
		return nil, "", errors.New("ref: salt")
	}
	esk, err := base64.StdEncoding.DecodeString(y.Esk)
	if err != nil {
		return nil, "", err
	}
	if y.Algo != "scrypt-sha256" {
		return nil, "", fmt.Errorf("ref: algo %q", y.Algo)
	}
	pass := sha512.Sum512(pw)
	key, err := scrypt.Key(pass[:], salt, y.N, y.R, y.P, 32)
	if err != nil {
		return nil, "", err
	}
	sk, err := gcm(key).Open(nil, salt[:12], esk, nil)
	if err != nil {
		return nil, "", err
	}
	if len(sk) != 64 || !ed25519.NewKeyFromSeed(sk[:32]).Equal(ed25519.PrivateKey(sk)) {
		return nil, "", errors.New("ref: not an ed25519 key")
	}
	return sk, y.Comment, nil
}

// PubYAML are the fields of a public key file.
type PubYAML struct {
	Comment string `yaml:"comment,omitempty"`
	Pk      string `yaml:"pk"`
	Hash    string `yaml:"hash"`
}

// MakePub is the text of a public key file.
func MakePub(pk []byte, comment string) []byte {
	b, err := yaml.Marshal(&PubYAML{comment, B64(pk), B64(PKHash(pk))})
	if err != nil {
		panic(err)
	}
	return b
}

// OpenPub reads a public key file.
func OpenPub(b []byte) ([]byte, string, error) {
	var y PubYAML
	if err := yaml.Unmarshal(b, &y); err != nil {
		return nil, "", err
	}
	pk, err := base64.StdEncoding.DecodeString(y.Pk)
	if err != nil || len(pk) != 32 {
		return nil, "", errors.New("ref: pk")
	}
	if y.Hash != B64(PKHash(pk)) {
		return nil, "", errors.New("ref: pk hash")
	}
	return pk, y.Comment, nil
}

// SigYAML are the fields of a signature file.
type SigYAML struct {
	Comment   string `yaml:"comment,omitempty"`
	Pkhash    string `yaml:"pkhash,omitempty"`
	Signature string `yaml:"signature"`
}

// MakeSig is the text of a signature file over digest.
func MakeSig(sk ed25519.PrivateKey, digest []byte, comment string) []byte {
	b, err := yaml.Marshal(&SigYAML{comment, B64(PKHash(sk.Public().(ed25519.PublicKey))), B64(SignMsg(sk, digest))})
	if err != nil {
		panic(err)
	}
	return b
}

// OpenSig reads a signature file.
func OpenSig(b []byte) (sig, hint []byte, comment string, err error) {
	var y SigYAML
	if err = yaml.Unmarshal(b, &y); err != nil {
		return
	}
	if sig, err = base64.StdEncoding.DecodeString(y.Signature); err != nil {
		return
	}
	hint, err = base64.StdEncoding.DecodeString(y.Pkhash)
	return sig, hint, y.Comment, err
}

// --- OpenSSH ---

func sshStr(b []byte, s []byte) []byte {
	b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
	return append(b, s...)
}

// SSHBlob is the wire encoding of a public key of the given type.
func SSHBlob(typ string, parts ...[]byte) []byte {
	b := sshStr(nil, []byte(typ))
	for _, p := range parts {
		b = sshStr(b, p)
	}
	return b
}

// SSHPub is an OpenSSH public key line without newline.
func SSHPub(pk []byte, comment string) string {
	s := "ssh-ed25519 " + B64(SSHBlob("ssh-ed25519", pk))
	if comment != "" {
		s += " " + comment
	}
	return s
}

// SSHPriv describes an OpenSSH private key container.
type SSHPriv struct {
	SK       ed25519.PrivateKey
	Comment  string
	Cipher   string // none, aes256-ctr, aes256-cbc
	KDF      string
	Pass     []byte
	Rounds   uint32
	Salt     []byte
	NumKeys  uint32
	KeyType  string
	Check2   uint32 // xor-ed into the second check value
	BadPad   bool
	PrivLen  int // truncate/extend the private part (0: 64)
	CutBlock int // bytes removed from the end of the encrypted block
	Magic    string
	PEMType  string
	CutAll   int // if > 0 keep only so many bytes of the body
	KdfOpts  []byte
	SetOpts  bool
	Made     string // cipher really used, if not Cipher
	Pad      string // deviation of the padding: first, last, zero, shifted
	Ext      int    // bytes of junk added to the encrypted block
	NoPriv   bool   // empty private part
	Trail    []byte // after everything
	Hdr      map[string]string
}

// DefSSH is a well formed container for sk.
func DefSSH(sk ed25519.PrivateKey, comment string) *SSHPriv {
	return &SSHPriv{SK: sk, Comment: comment, Cipher: "none", KDF: "none", NumKeys: 1, KeyType: "ssh-ed25519",
		Magic: "openssh-key-v1\x00", PEMType: "OPENSSH PRIVATE KEY", Rounds: 1}
}

// Bytes builds the PEM text.
func (s *SSHPriv) Bytes() []byte {
	pk := []byte(s.SK.Public().(ed25519.PublicKey))
	chk := binary.BigEndian.Uint32(Rand(4))
	var in []byte
	in = binary.BigEndian.AppendUint32(in, chk)
	in = binary.BigEndian.AppendUint32(in, chk^s.Check2)
	in = sshStr(in, []byte(s.KeyType))
	in = sshStr(in, pk)
	priv := append([]byte(nil), s.SK...)
	if s.NoPriv {
		priv = nil
	}
	if s.PrivLen > 0 {
		for len(priv) < s.PrivLen {
			priv = append(priv, 0)
		}
		priv = priv[:s.PrivLen]
	}
	in = sshStr(in, priv)
	in = sshStr(in, []byte(s.Comment))
	made := s.Made
	if made == "" {
		made = s.Cipher
	}
	bs := 8
	if made != "none" {
		bs = 16
	}
	p0 := len(in)
	for i := byte(1); len(in)%bs != 0; i++ {
		in = append(in, i)
	}
	if pad := in[p0:]; len(pad) > 0 {
		switch s.Pad {
		case "first":
			pad[0] ^= 0x10
		case "last":
			pad[len(pad)-1] ^= 0x80
		case "zero":
			clear(pad)
		case "shifted":
			for i := range pad {
				pad[i]++
			}
		}
	}
	if s.Ext > 0 && made != "aes256-cbc" {
		for i := 0; i < s.Ext; i++ {
			in = append(in, 0xee)
		}
	}
	if s.BadPad {
		if n := len(in); in[n-1] <= 16 {
			in[n-1] ^= 0x40
		} else {
			for i := 0; i < bs; i++ {
				in = append(in, 0x55)
			}
		}
	}
	var opts []byte
	if s.KDF == "bcrypt" || made != "none" {
		salt := s.Salt
		if salt == nil {
			salt = Rand(16)
		}
		opts = binary.BigEndian.AppendUint32(sshStr(nil, salt), s.Rounds)
		k, err := bcrypt_pbkdf.Key(s.Pass, salt, int(max(s.Rounds, 1)), 48)
		if err != nil {
			k = make([]byte, 48)
		}
		blk, err := aes.NewCipher(k[:32])
		if err != nil {
			panic(err)
		}
		switch made {
		case "aes256-ctr":
			cipher.NewCTR(blk, k[32:]).XORKeyStream(in, in)
		case "aes256-cbc":
			cipher.NewCBCEncrypter(blk, k[32:]).CryptBlocks(in, in)
		}
	}
	if s.SetOpts {
		opts = s.KdfOpts
	}
	if s.Ext > 0 && made == "aes256-cbc" {
		in = append(in, Rand(s.Ext)...)
	}
	in = in[:max(0, len(in)-s.CutBlock)]
	b := []byte(s.Magic)
	b = sshStr(b, []byte(s.Cipher))
	b = sshStr(b, []byte(s.KDF))
	b = sshStr(b, opts)
	b = binary.BigEndian.AppendUint32(b, s.NumKeys)
	b = sshStr(b, SSHBlob("ssh-ed25519", pk))
	b = sshStr(b, in)
	if s.CutAll > 0 && s.CutAll < len(b) {
		b = b[:s.CutAll]
	}
	b = append(b, s.Trail...)
	return pem.EncodeToMemory(&pem.Block{Type: s.PEMType, Headers: s.Hdr, Bytes: b})
}

// NormComment trims a comment the way key lines do.
func NormComment(s string) string { return strings.TrimSpace(s) }

// SSHCrypt encrypts a section the way OpenSSH does.
func SSHCrypt(ciph string, pass, salt []byte, rounds int, in []byte) []byte {
	k, err := bcrypt_pbkdf.Key(pass, salt, rounds, 48)
	if err != nil {
		panic(err)
	}
	blk, err := aes.NewCipher(k[:32])
	if err != nil {
		panic(err)
	}
	out := append([]byte(nil), in...)
	if ciph == "aes256-cbc" {
		cipher.NewCBCEncrypter(blk, k[32:]).CryptBlocks(out, in)
	} else {
		cipher.NewCTR(blk, k[32:]).XORKeyStream(out, in)
	}
	return out
}
