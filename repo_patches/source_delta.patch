From 5577ebf9d6bdbfa6010fb7006383fea87503e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 01/27] fix: read the database path under the lock

Copy replaces the path temporarily while holding the lock.
---
 database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database.go b/database.go
index 19b834e..60a24b8 100644
--- a/database.go
+++ b/database.go
@@ -244,6 +244,8 @@ func (db *Database) checkPasswordPolicyCompliance(s string) error {
 
 // GetPath returns the path  to Database.
 func (db *Database) GetPath() string {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	return db.path
 }
 
-- 
2.43.0


From d197404401227fa931b59e83122ed554d83e2856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 02/27] fix: do not cache the public key of an MFA token

The cache was written while holding only a read lock, so concurrent
authentications raced.
---
 mfa_token.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 8980581..6ac37be 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -61,7 +61,6 @@ type MfaToken struct {
 	Parameters       map[string]string `json:"parameters,omitempty" xml:"parameters,omitempty" yaml:"parameters,omitempty"`
 	Flags            map[string]bool   `json:"flags,omitempty" xml:"flags,omitempty" yaml:"flags,omitempty"`
 	SignatureCounter uint32            `json:"signature_counter,omitempty" xml:"signature_counter,omitempty" yaml:"signature_counter,omitempty"`
-	pubkey           *ecdsa.PublicKey
 }
 
 // MfaDevice is the hardware device associated with MfaToken.
@@ -305,13 +304,16 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 		}
 	}
 
+	// The key is derived for each request, because tokens are verified by
+	// concurrent readers.
+	var pubkey *ecdsa.PublicKey
 	switch p.Parameters["key_type"] {
 	case "ec2":
-		if p.pubkey == nil {
-			if err := p.derivePublicKey(p.Parameters); err != nil {
-				return nil, err
-			}
+		k, err := derivePublicKey(p.Parameters)
+		if err != nil {
+			return nil, err
 		}
+		pubkey = k
 	default:
 		return nil, errors.ErrWebAuthnRequest.WithArgs("unsupported key type")
 	}
@@ -412,7 +414,7 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 	// Verify signature.
 	signedData := append(authDataBytes, clientDataHash[:]...)
 	crt := &x509.Certificate{
-		PublicKey: p.pubkey,
+		PublicKey: pubkey,
 	}
 
 	switch p.Parameters["key_algo"] {
@@ -506,10 +508,10 @@ func generateMfaCode(secret, algo string, digits int, ts uint64) (string, error)
 	return fmt.Sprintf(wrap, mod), nil
 }
 
-func (p *MfaToken) derivePublicKey(params map[string]string) error {
+func derivePublicKey(params map[string]string) (*ecdsa.PublicKey, error) {
 	for _, reqParam := range []string{"curve_xcoord", "curve_ycoord", "key_algo"} {
 		if _, exists := params[reqParam]; !exists {
-			return errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
+			return nil, errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
 		}
 	}
 
@@ -518,10 +520,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 		coord := "curve_" + ltr + "coord"
 		b, err := base64.StdEncoding.DecodeString(params[coord])
 		if err != nil {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
 		}
 		if len(b) != 32 {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
 		}
 		i := new(big.Int)
 		i.SetBytes(b)
@@ -530,11 +532,9 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 
 	switch params["key_algo"] {
 	case "es256":
-		p.pubkey = &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}
-	default:
-		return errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
+		return &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}, nil
 	}
-	return nil
+	return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
 }
 
 func (r *WebAuthnAuthenticateRequest) unpackAuthData(b []byte) error {
-- 
2.43.0


From f295a1ae04db8c7f0bd9166de25fb08561333d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 03/27] fix: refuse disabled and expired API keys

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 87e0e15..a01c636 100644
--- a/user.go
+++ b/user.go
@@ -443,6 +443,9 @@ func (user *User) DeleteAPIKey(r *requests.Request) error {
 // LookupAPIKey performs the lookup of API key.
 func (user *User) LookupAPIKey(r *requests.Request) error {
 	for _, k := range user.APIKeys {
+		if k.Disabled || k.Expired {
+			continue
+		}
 		if k.Prefix == r.Key.Prefix {
 			if k.Match(r.Key.Payload) {
 				return nil
-- 
2.43.0


From d51c9ddbcd9124cbb75523b970574243a3148eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 04/27] fix: refuse expired U2F tokens

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index a01c636..18f6568 100644
--- a/user.go
+++ b/user.go
@@ -282,7 +282,7 @@ func (user *User) VerifyWebAuthnRequest(r *requests.Request) error {
 		return err
 	}
 	for _, token := range user.MfaTokens {
-		if token.Disabled {
+		if token.Disabled || token.Expired {
 			continue
 		}
 		if token.Type != "u2f" {
-- 
2.43.0


From b67628ce5085e285a2185c6457a995041385282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 05/27] fix: refuse WebAuthn public keys with values of
 unexpected types

A parameter of the registered public key that was not of the expected JSON
type caused a panic.
---
 mfa_token.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 6ac37be..a414dd7 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -222,11 +222,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#key-type
 		var keyType string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["key_type"]; exists {
-			switch v.(float64) {
+			switch n, _ := v.(float64); n {
 			case 2:
 				keyType = "ec2"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyTypeNotFound
@@ -235,11 +235,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#algorithms
 		var keyAlgo string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["algorithm"]; exists {
-			switch v.(float64) {
+			switch n, _ := v.(float64); n {
 			case -7:
 				keyAlgo = "es256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmNotFound
@@ -248,18 +248,26 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v.(float64) {
+			switch n, _ := v.(float64); n {
 			case 1:
 				curveType = "p256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-			curveXcoord = v.(string)
+			s, valid := v.(string)
+			if !valid {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x", "not a string")
+			}
+			curveXcoord = s
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_y"]; exists {
-			curveYcoord = v.(string)
+			s, valid := v.(string)
+			if !valid {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("y", "not a string")
+			}
+			curveYcoord = s
 		}
 
 		switch keyType {
-- 
2.43.0


From 2b855c325b06b5d0ded6e13877bd2c17b59fbf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 06/27] fix: trim a password before matching it

Surrounding spaces are removed before a password is hashed, so a password
set with them was never accepted afterwards.
---
 password.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/password.go b/password.go
index 7e81482..1374b17 100644
--- a/password.go
+++ b/password.go
@@ -93,6 +93,7 @@ func (p *Password) hash(s string) error {
 
 // Match returns true when the provided password matches the user.
 func (p *Password) Match(s string) bool {
+	s = strings.TrimSpace(s)
 	if err := bcrypt.CompareHashAndPassword([]byte(p.Hash), []byte(s)); err == nil {
 		return true
 	}
-- 
2.43.0


From 8bf49a502b295dcbb15fee7bf034af378125b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 07/27] fix: generate keys and identifiers with crypto/rand

The generator was seeded with the time of start and shared by all
goroutines without a lock. A range of length zero caused a panic.
---
 random.go | 25 +++++++++++++++++--------
 uuid.go   |  3 +--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/random.go b/random.go
index 750127d..9098225 100644
--- a/random.go
+++ b/random.go
@@ -15,21 +15,30 @@
 package identity
 
 import (
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 )
 
 const charset = "abcdefghijklmnopqrstuvwxyz" +
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
-var seed *rand.Rand = rand.New(
-	rand.NewSource(time.Now().UnixNano()),
-)
+// randomInt returns a random number between 0 and n-1. The number comes from
+// the random source of the operating system.
+func randomInt(n int) int {
+	if n < 2 {
+		return 0
+	}
+	v, err := rand.Int(rand.Reader, big.NewInt(int64(n)))
+	if err != nil {
+		panic("failed reading random data: " + err.Error())
+	}
+	return int(v.Int64())
+}
 
 func gen(length int, charset string) string {
 	b := make([]byte, length)
 	for i := range b {
-		b[i] = charset[seed.Intn(len(charset))]
+		b[i] = charset[randomInt(len(charset))]
 	}
 	return string(b)
 }
@@ -47,9 +56,9 @@ func GetRandomString(i int) string {
 func GetRandomStringFromRange(a, b int) string {
 	var i int
 	if a > b {
-		i = rand.Intn(a-b) + b
+		i = randomInt(a-b) + b
 	} else {
-		i = rand.Intn(b-a) + a
+		i = randomInt(b-a) + a
 	}
 	return gen(i, charset)
 }
diff --git a/uuid.go b/uuid.go
index 42b8011..e76e1e9 100644
--- a/uuid.go
+++ b/uuid.go
@@ -16,7 +16,6 @@ package identity
 
 import (
 	"github.com/satori/go.uuid"
-	"math/rand"
 	"strings"
 )
 
@@ -33,7 +32,7 @@ func NewRandomString(length int) string {
 	}
 	var b strings.Builder
 	for i := 0; i < length; i++ {
-		b.WriteRune(chars[rand.Intn(len(chars))])
+		b.WriteRune(chars[randomInt(len(chars))])
 	}
 	return b.String()
 }
-- 
2.43.0


From 01182fe275bdd937b07c9189f9badc4bba432377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 08/27] fix: replace the database file atomically

The file was truncated and written in place, so a crash during a save lost
the database.
---
 database.go            |  3 +--
 internal/utils/file.go | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 60a24b8..dcd200e 100644
--- a/database.go
+++ b/database.go
@@ -21,7 +21,6 @@ import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -461,7 +460,7 @@ func (db *Database) commit() error {
 	if err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
-	if err := ioutil.WriteFile(db.path, []byte(data), 0600); err != nil {
+	if err := utils.WriteFileAtomic(db.path, data); err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	return nil
diff --git a/internal/utils/file.go b/internal/utils/file.go
index d4072cb..f736d8e 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -18,6 +18,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 func expandHomePath(fp string) (string, error) {
@@ -41,3 +42,36 @@ func ReadFileBytes(fp string) ([]byte, error) {
 	}
 	return ioutil.ReadFile(fp)
 }
+
+// WriteFileAtomic replaces the content of a file. The new content goes to a
+// temporary file in the same directory, which then takes the place of the
+// file. Thus, the file has either the previous or the new content, in full.
+func WriteFileAtomic(fp string, data []byte) error {
+	if fileInfo, err := os.Stat(fp); err == nil {
+		if fileInfo.IsDir() {
+			return &os.PathError{Op: "open", Path: fp, Err: syscall.EISDIR}
+		}
+		// Replace the file, and not a symbolic link to it.
+		if fp, err = filepath.EvalSymlinks(fp); err != nil {
+			return err
+		}
+	}
+	f, err := ioutil.TempFile(filepath.Dir(fp), "."+filepath.Base(fp)+".")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), fp)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
-- 
2.43.0


From a354c72bb6c1772b235422434a3b9031d7adc0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 09/27] fix: revise a user when the first name is added

---
 user.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/user.go b/user.go
index 18f6568..ca740dc 100644
--- a/user.go
+++ b/user.go
@@ -358,6 +358,7 @@ func (user *User) AddName(name *Name) error {
 	if len(user.Names) == 0 {
 		user.Name = name
 		user.Names = append(user.Names, name)
+		user.Revise()
 		return nil
 	}
 	for _, n := range user.Names {
-- 
2.43.0


From 060b2acc1bd9bf76f46b520d2149d107121a332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 10/27] fix: refuse public keys whose payload does not match
 the usage

---
 public_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public_key.go b/public_key.go
index 147edc7..4b12947 100644
--- a/public_key.go
+++ b/public_key.go
@@ -130,6 +130,9 @@ func (p *PublicKey) parse() error {
 
 func (p *PublicKey) parsePublicKeyOpenSSH() error {
 	// Attempt parsing as authorized OpenSSH keys.
+	if p.Usage != "ssh" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	payloadBytes := bytes.TrimSpace([]byte(p.Payload))
 	i := bytes.IndexAny(payloadBytes, " \t")
 	if i == -1 {
@@ -193,6 +196,9 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 
 func (p *PublicKey) parsePublicKeyPGP() error {
 	var user, algo, comment string
+	if p.Usage != "gpg" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	p.Payload = strings.TrimSpace(p.Payload)
 	for _, w := range []string{"BEGIN", "END"} {
 		s := fmt.Sprintf("-----%s PGP PUBLIC KEY BLOCK-----", w)
-- 
2.43.0


From aa2c325efb11f80df39ff932d49e6c97ad073302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 11/27] fix: detect a duplicate public key in another format

---
 user.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index ca740dc..f247927 100644
--- a/user.go
+++ b/user.go
@@ -381,7 +381,8 @@ func (user *User) AddPublicKey(r *requests.Request) error {
 		if k.Type != key.Type {
 			continue
 		}
-		if k.Fingerprint != key.Fingerprint {
+		// The fingerprints of OpenSSH keys have a prefix, those of PEM keys do not.
+		if strings.TrimPrefix(k.Fingerprint, "SHA256:") != strings.TrimPrefix(key.Fingerprint, "SHA256:") {
 			continue
 		}
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, "already exists")
-- 
2.43.0


From b089b4d7d2649fd75eb0a35313413553c8d01e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 12/27] fix: report the failure of authdbctl

---
 cmd/authdbctl/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/authdbctl/main.go b/cmd/authdbctl/main.go
index c19b6db..128b98f 100644
--- a/cmd/authdbctl/main.go
+++ b/cmd/authdbctl/main.go
@@ -48,5 +48,8 @@ func init() {
 }
 
 func main() {
-	sh.Run(os.Args)
+	if err := sh.Run(os.Args); err != nil {
+		fmt.Fprintf(os.Stderr, "%s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From c7e5769f59b24e7163657096d9566f4e334ead3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 13/27] fix: find users with a short username or email address

A user with the email address a@b.c was accepted and never found.
---
 database.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/database.go b/database.go
index dcd200e..8725147 100644
--- a/database.go
+++ b/database.go
@@ -402,9 +402,6 @@ func (db *Database) getUserByID(s string) (*User, error) {
 
 // getUserByUsername returns a user by username
 func (db *Database) getUserByUsername(s string) (*User, error) {
-	if len(s) < 2 {
-		return nil, errors.ErrDatabaseUserNotFound
-	}
 	s = strings.ToLower(s)
 	user, exists := db.refUsername[s]
 	if exists && user != nil {
@@ -416,9 +413,6 @@ func (db *Database) getUserByUsername(s string) (*User, error) {
 // getUserByEmailAddress returns a liast of users associated with a specific email
 // address.
 func (db *Database) getUserByEmailAddress(s string) (*User, error) {
-	if len(s) < 6 {
-		return nil, errors.ErrDatabaseUserNotFound
-	}
 	s = strings.ToLower(s)
 	user, exists := db.refEmailAddress[s]
 	if exists && user != nil {
-- 
2.43.0


From da56add7f1398f05411f6888224ace4032d435b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 14/27] fix: draw a new API key when its prefix is taken

The loop tried the same key again, forever.
---
 database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 8725147..b33bc9f 100644
--- a/database.go
+++ b/database.go
@@ -539,9 +539,9 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
-	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
 	for {
+		s := GetRandomStringFromRange(72, 96)
 		hk, err := NewPassword(s)
 		if err != nil {
 			if failCount > 10 {
-- 
2.43.0


From 29929ffe1ed65a1399e368ebb3f70f55dfc6df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 15/27] fix: refuse a user whose id is in use

After ten ids in use, the user got an id that was never looked up.
---
 database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database.go b/database.go
index b33bc9f..839d15d 100644
--- a/database.go
+++ b/database.go
@@ -272,6 +272,9 @@ func (db *Database) AddUser(r *requests.Request) error {
 			break
 		}
 	}
+	if _, exists := db.refID[user.ID]; exists {
+		return errors.ErrAddUser.WithArgs(r.User.Username, "user id already in use")
+	}
 	username := strings.ToLower(user.Username)
 	if _, exists := db.refUsername[username]; exists {
 		return errors.ErrAddUser.WithArgs(username, "username already in use")
-- 
2.43.0


From a4da101aeee1861a9786c1ab35e6c4fd40d9f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 16/27] fix: find users by the id they were loaded with

The id was converted to lower case for the lookup only, so a user loaded with
upper case letters in the id was never found.
---
 database.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/database.go b/database.go
index 839d15d..f4cd0d7 100644
--- a/database.go
+++ b/database.go
@@ -395,7 +395,6 @@ func (db *Database) getUser(s string) (*User, error) {
 
 // getUserByID returns a user by id
 func (db *Database) getUserByID(s string) (*User, error) {
-	s = strings.ToLower(s)
 	user, exists := db.refID[s]
 	if exists && user != nil {
 		return user, nil
-- 
2.43.0


From f4e826067222c5aaa8a006e28589185bc521525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 17/27] fix: refuse a role with an organization and no name

---
 role.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/role.go b/role.go
index dbdded7..0beee38 100644
--- a/role.go
+++ b/role.go
@@ -39,6 +39,9 @@ func NewRole(s string) (*Role, error) {
 	}
 	role.Organization = parts[0]
 	role.Name = strings.Join(parts[1:], "/")
+	if role.Name == "" {
+		return nil, errors.ErrRoleEmpty
+	}
 	return role, nil
 }
 
-- 
2.43.0


From 7ff9761ead6ba4fa9e183f887630b296fee21ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 18/27] fix: refuse a database file with empty entries

A null in the list of users, or in a list of a user, e.g. passwords, caused a
panic.
---
 pkg/errors/database.go |  2 ++
 user.go                | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 89755c4..6b86dec 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -57,6 +57,8 @@ const (
 
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
+	ErrUserEmpty           StandardError = "user is empty"
+	ErrUserEntryEmpty      StandardError = "user has an empty %s"
 
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
diff --git a/user.go b/user.go
index f247927..7ece6e3 100644
--- a/user.go
+++ b/user.go
@@ -133,6 +133,9 @@ func NewUserWithRoles(username, password, email, fullName string, roles []string
 
 // Valid returns true if a user conforms to a standard.
 func (user *User) Valid() error {
+	if user == nil {
+		return errors.ErrUserEmpty
+	}
 	if len(user.ID) != 36 {
 		return errors.ErrUserIDInvalidLength.WithArgs(len(user.ID))
 	}
@@ -142,6 +145,41 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	for _, p := range user.Passwords {
+		if p == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("password")
+		}
+	}
+	for _, name := range user.Names {
+		if name == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("name")
+		}
+	}
+	for _, email := range user.EmailAddresses {
+		if email == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("email address")
+		}
+	}
+	for _, role := range user.Roles {
+		if role == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("role")
+		}
+	}
+	for _, k := range user.PublicKeys {
+		if k == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("public key")
+		}
+	}
+	for _, k := range user.APIKeys {
+		if k == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("api key")
+		}
+	}
+	for _, token := range user.MfaTokens {
+		if token == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("mfa token")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 52cbfe83a6d2c6986b807cab1d262ef061779061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 19/27] fix: load the database from the file it is saved to

The path was expanded for reading only, so a database with a path starting
with a tilde could not be opened again.
---
 database.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index f4cd0d7..db9bb04 100644
--- a/database.go
+++ b/database.go
@@ -21,6 +21,7 @@ import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -136,7 +137,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if fileInfo.IsDir() {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, "path points to a directory")
 		}
-		b, err := utils.ReadFileBytes(fp)
+		b, err := ioutil.ReadFile(fp)
 		if err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-- 
2.43.0


From 89eb5c3ded4370818efb710cb6694d70012ed5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 20/27] fix: find users whose username contains an at sign

---
 database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index db9bb04..3fabebd 100644
--- a/database.go
+++ b/database.go
@@ -389,7 +389,9 @@ func (db *Database) AuthenticateUser(r *requests.Request) error {
 // getUser return User by either email address or username.
 func (db *Database) getUser(s string) (*User, error) {
 	if strings.Contains(s, "@") {
-		return db.getUserByEmailAddress(s)
+		if user, err := db.getUserByEmailAddress(s); err == nil {
+			return user, nil
+		}
 	}
 	return db.getUserByUsername(s)
 }
-- 
2.43.0


From d932351f5f1cdfde3a0e34447d5b7b09ba00321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 21/27] fix: apply the password length policy to the text that
 is stored

---
 database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database.go b/database.go
index 3fabebd..ae2f782 100644
--- a/database.go
+++ b/database.go
@@ -236,6 +236,8 @@ func (db *Database) checkUserPolicyCompliance(s string) error {
 }
 
 func (db *Database) checkPasswordPolicyCompliance(s string) error {
+	// Passwords are stored without leading and trailing white space.
+	s = strings.TrimSpace(s)
 	if len(s) > db.Policy.Password.MaxLength || len(s) < db.Policy.Password.MinLength {
 		return errors.ErrPasswordPolicyCompliance
 	}
-- 
2.43.0


From cd311358c12b0f63100cf6be979ccecc25d15ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 22/27] fix: ignore letter case when looking for a duplicate
 email address of a user

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 7ece6e3..3d079dc 100644
--- a/user.go
+++ b/user.go
@@ -223,7 +223,7 @@ func (user *User) AddEmailAddress(s string) error {
 		return nil
 	}
 	for _, e := range user.EmailAddresses {
-		if email.Address == e.Address {
+		if strings.EqualFold(email.Address, e.Address) {
 			return nil
 		}
 	}
-- 
2.43.0


From 91c3a7a437dea9eb7f2d14b7256717ffb4ecc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 23/27] fix: refuse an RSA public key block that holds a key of
 another kind

---
 public_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_key.go b/public_key.go
index 4b12947..24a2f2f 100644
--- a/public_key.go
+++ b/public_key.go
@@ -271,6 +271,9 @@ func (p *PublicKey) parsePublicKeyRSA() error {
 	if err != nil {
 		return fmt.Errorf("failed ssh.NewPublicKey: %s", err)
 	}
+	if publicKey.Type() != "ssh-rsa" {
+		return errors.ErrPublicKeyTypeUnsupported.WithArgs(publicKey.Type())
+	}
 	p.Type = publicKey.Type()
 	p.FingerprintMD5 = ssh.FingerprintLegacyMD5(publicKey)
 	p.Fingerprint = ssh.FingerprintSHA256(publicKey)
-- 
2.43.0


From 04097fd700cb20658830af81b0e56a2d6ea9516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 24/27] fix: give a failed WebAuthn verification its reason

ErrWebAuthnVerifyRequest has a placeholder, but was returned as it is, so
that the text ended in a literal %v.
---
 user.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/user.go b/user.go
index 3d079dc..b5eddee 100644
--- a/user.go
+++ b/user.go
@@ -334,17 +334,17 @@ func (user *User) VerifyWebAuthnRequest(r *requests.Request) error {
 		}
 		resp, err := token.WebAuthnRequest(r.WebAuthn.Request)
 		if err != nil {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs(err)
 		}
 		if resp == nil {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs("empty response")
 		}
 		if resp.ClientData.Challenge != r.WebAuthn.Challenge {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs("challenge mismatch")
 		}
 		return nil
 	}
-	return errors.ErrWebAuthnVerifyRequest
+	return errors.ErrWebAuthnVerifyRequest.WithArgs("token not found")
 }
 
 // GetMailClaim returns primary email address.
-- 
2.43.0


From 792b36d060e6279f0217962a985938218b3b2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 25/27] fix: report a key that cannot be hashed as a failure to
 add a key

---
 database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.go b/database.go
index ae2f782..edcc5b3 100644
--- a/database.go
+++ b/database.go
@@ -552,7 +552,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 		hk, err := NewPassword(s)
 		if err != nil {
 			if failCount > 10 {
-				return err
+				return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 			}
 			failCount++
 			continue
-- 
2.43.0


From 76034b3ed07fe7efe3b9e798abc5d2a18895fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 26/27] fix: hand out a new API key only after it was added and
 saved

---
 database.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index edcc5b3..8791405 100644
--- a/database.go
+++ b/database.go
@@ -546,6 +546,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	var apiKey string
 	failCount := 0
 	for {
 		s := GetRandomStringFromRange(72, 96)
@@ -561,7 +562,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 		if _, exists := db.refAPIKey[keyPrefix]; exists {
 			continue
 		}
-		r.Response.Payload = s
+		apiKey = s
 		r.Key.Payload = hk.Hash
 		r.Key.Prefix = keyPrefix
 		if err := user.AddAPIKey(r); err != nil {
@@ -574,6 +575,8 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err := db.commit(); err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	// A key is handed out only after it was added and saved.
+	r.Response.Payload = apiKey
 	return nil
 }
 
-- 
2.43.0


From 57f17a9dcb0c15a34ae7b541c8550672a16250c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:58 +0000
Subject: [PATCH 27/27] fix: keep no more earlier passwords than the policy
 says

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index b5eddee..a6a886c 100644
--- a/user.go
+++ b/user.go
@@ -200,7 +200,7 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 				p.Disable()
 			}
 			passwords = append(passwords, p)
-			if i > keepVersions {
+			if i+1 >= keepVersions {
 				break
 			}
 		}
-- 
2.43.0

