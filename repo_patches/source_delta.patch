From 0c41bd71d64029fb5834090fd85813e5591271e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 01/27] fix: guard the local policy store with a lock

Requests read the maps while the controllers write them.
---
 adapter/policy/store/policy/localstore.go | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..7280d6c 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"sync"
+
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
@@ -9,6 +11,8 @@ import (
 
 // LocalStore is responsible for storing and managing policy/client data
 type LocalStore struct {
+	// mutex protects all fields below: requests read while the controllers write
+	mutex sync.RWMutex
 	// clients maps client_name -> client_config
 	clients map[string]client.Client // oidc config ClientName:Client
 	// policies maps endpoint -> list of actions
@@ -29,6 +33,8 @@ func New() PolicyStore {
 }
 
 func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.keysets != nil {
 		return l.keysets[clientName]
 	}
@@ -36,6 +42,8 @@ func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
 }
 
 func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets == nil {
 		l.keysets = make(map[string]keyset.KeySet)
 	}
@@ -43,6 +51,8 @@ func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
 }
 
 func (l *LocalStore) DeleteKeySet(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets != nil {
 		delete(l.keysets, clientName)
 	}
@@ -50,6 +60,8 @@ func (l *LocalStore) DeleteKeySet(clientName string) {
 
 
 func (l *LocalStore) GetClient(clientName string) client.Client {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.clients != nil {
 		return l.clients[clientName]
 	}
@@ -57,6 +69,8 @@ func (l *LocalStore) GetClient(clientName string) client.Client {
 }
 
 func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients == nil {
 		l.clients = make(map[string]client.Client)
 	}
@@ -64,12 +78,16 @@ func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
 }
 
 func (l *LocalStore) DeleteClient(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients != nil {
 		delete(l.clients, clientName)
 	}
 }
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
 		if ok {
@@ -87,6 +105,8 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 }
 
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -104,6 +124,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 }
 
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
 	}
@@ -111,12 +133,16 @@ func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 }
 
 func (s *LocalStore) DeletePolicyMapping(policy string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings != nil {
 		delete(s.policyMappings, policy)
 	}
 }
 
 func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings == nil {
 		s.policyMappings = make(map[string][]policy.PolicyMapping)
 	}
-- 
2.43.0


From 3540f6914723b107ca48127616da28f8394e58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 02/27] fix: store a policy at its own path, not at an
 enclosing prefix

---
 adapter/policy/store/policy/localstore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 7280d6c..d18c107 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -114,7 +114,9 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	// Only an entry stored at this very path may be extended: GetActions may
+	// answer with the entry of an enclosing prefix.
+	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From f2594598af4eb05bce80a55ad066a3d4851aef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 03/27] fix: an entry without a policy for the method no longer
 hides enclosing prefixes

An exact path stored for another method, or one whose policy was deleted,
left requests unprotected although a prefix policy covers them.
---
 adapter/policy/store/pathtrie/pathtrie.go | 28 +++++++++++++++++++++++
 adapter/policy/store/pathtrie/trie.go     |  1 +
 adapter/policy/store/policy/localstore.go | 16 ++++++++-----
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/adapter/policy/store/pathtrie/pathtrie.go b/adapter/policy/store/pathtrie/pathtrie.go
index 4d99a4b..5f14729 100644
--- a/adapter/policy/store/pathtrie/pathtrie.go
+++ b/adapter/policy/store/pathtrie/pathtrie.go
@@ -61,6 +61,34 @@ func (trie *PathTrie) GetActions(key string) interface{} {
 	return node.value
 }
 
+// GetAll returns every value that covers the given key: those stored for the
+// prefixes enclosing it and the one stored at the key itself. The values are
+// ordered from the least to the most specific.
+func (trie *PathTrie) GetAll(key string) []interface{} {
+	prefix := "/*"
+	values := make([]interface{}, 0)
+	node := trie
+	if wildcard := node.children[prefix]; wildcard != nil && wildcard.value != nil {
+		values = append(values, wildcard.value)
+	}
+	for part, i := trie.segmenter(key, 0); ; part, i = trie.segmenter(key, i) {
+		node = node.children[part]
+		if node == nil {
+			return values
+		}
+		if wildcard := node.children[prefix]; wildcard != nil && wildcard.value != nil {
+			values = append(values, wildcard.value)
+		}
+		if i == -1 {
+			break
+		}
+	}
+	if node.value != nil {
+		values = append(values, node.value)
+	}
+	return values
+}
+
 // Put inserts the value into the trie at the given key, replacing any
 // existing items. It returns true if the put adds a new value, false
 // if it replaces an existing value.
diff --git a/adapter/policy/store/pathtrie/trie.go b/adapter/policy/store/pathtrie/trie.go
index 7e76676..2f78afe 100644
--- a/adapter/policy/store/pathtrie/trie.go
+++ b/adapter/policy/store/pathtrie/trie.go
@@ -4,6 +4,7 @@ package pathtrie
 type Trie interface {
 	Get(key string) interface{}
 	GetActions(key string) interface{}
+	GetAll(key string) []interface{}
 	Put(key string, value interface{}) bool
 	Delete(key string) bool
 }
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index d18c107..ae7d37a 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -89,14 +89,18 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
-		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
-		if ok {
-			result, present := actions[endpoint.Method]
-			if present { // found actions for method
+		// An entry without actions for the method (or whose policy was deleted)
+		// must not hide the policies of the prefixes enclosing it.
+		candidates := l.policies[endpoint.Service].GetAll(endpoint.Path)
+		for i := len(candidates) - 1; i >= 0; i-- {
+			actions, ok := candidates[i].(policy.Actions)
+			if !ok {
+				continue
+			}
+			if result := actions[endpoint.Method]; len(result.Actions) > 0 { // found actions for method
 				return result
 			}
-			result, present = actions[policy.ALL]
-			if present { // check if actions are set for ALL
+			if result := actions[policy.ALL]; len(result.Actions) > 0 { // check if actions are set for ALL
 				return result
 			}
 		}
-- 
2.43.0


From 2fcd77a7cb40acf7bea2a45fb06c4c15c7b767ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 04/27] fix: strip only the trailing callback or logout segment
 before policy lookup

---
 adapter/policy/engine/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..33b59f8 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -53,9 +53,9 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 
 	// Strip custom path components
 	if strings.HasSuffix(target.Path, callbackEndpoint) {
-		target.Path = strings.Split(target.Path, callbackEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, callbackEndpoint)
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
-		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, logoutEndpoint)
 	}
 
 	// Get All policies protecting target
-- 
2.43.0


From 404a7bd8a2390b054b838d30c5ff2766bf31d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 05/27] fix: guard downloaded public keys with a lock

They are replaced by one request while others look up keys.
---
 adapter/authserver/keyset/keyset.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index fd64a25..acbbf80 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -5,6 +5,7 @@ import (
 	"crypto"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"go.uber.org/zap"
 
@@ -26,7 +27,10 @@ type RemoteKeySet struct {
 	httpClient   *networking.HTTPClient
 
 	requestGroup singleflight.Group
-	publicKeys   map[string]crypto.PublicKey
+
+	// mutex protects publicKeys: it is replaced while requests read it
+	mutex      sync.RWMutex
+	publicKeys map[string]crypto.PublicKey
 }
 
 ////////////////// constructor //////////////////////////
@@ -55,10 +59,17 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 
 // PublicKey returns the public key with the specified kid
 func (s *RemoteKeySet) PublicKey(kid string) crypto.PublicKey {
-	if key := s.publicKeys[kid]; key != nil {
+	if key := s.storedKey(kid); key != nil {
 		return key
 	}
 	_ = s.updateKeysGrouped()
+	return s.storedKey(kid)
+}
+
+// storedKey returns the public key with the specified kid, if it was downloaded
+func (s *RemoteKeySet) storedKey(kid string) crypto.PublicKey {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.publicKeys[kid]
 }
 
@@ -116,6 +127,8 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	zap.L().Info("Synced public keys", zap.String("url", s.publicKeyURL))
 
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.publicKeys = keymap
 
 	return http.StatusOK, nil
-- 
2.43.0


From e3bb3ba7bd706aaa19673e4faa988513e6933b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 06/27] fix: guard discovery data with a lock and publish it
 before the flag

Discovery data is loaded while other requests use it, and a request could see
the initialized flag before the endpoints.
---
 adapter/authserver/authserver.go | 77 +++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..3e355e2 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 
 	"github.com/golang/groupcache/singleflight"
 	"go.uber.org/zap"
@@ -56,12 +57,15 @@ type AuthorizationServerService interface {
 // RemoteService represents a remote authentication server
 // Configuration is loaded asynchronously from the discovery endpoint
 type RemoteService struct {
-	DiscoveryConfig
 	discoveryURL string
-	jwks         keyset.KeySet
 	httpclient   *networking.HTTPClient
 	requestGroup singleflight.Group
-	initialized  bool
+
+	// mutex protects all fields below: they are set while requests are served
+	mutex sync.RWMutex
+	DiscoveryConfig
+	jwks        keyset.KeySet
+	initialized bool
 }
 
 // New creates a RemoteService returning a AuthorizationServerService interface
@@ -83,46 +87,68 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
-	_ = s.initialize()
-	if s.jwks == nil && s.JwksURL != "" {
-		s.jwks = keyset.New(s.JwksURL, s.httpclient)
+	jwksURL := s.JwksEndpoint()
+	if jwks := s.storedKeySet(); jwks != nil || jwksURL == "" {
+		return jwks
 	}
-	return s.jwks
+	// Downloads the keys, so the lock must not be held
+	s.storeKeySet(keyset.New(jwksURL, s.httpclient))
+	return s.storedKeySet()
 }
 
 // SetKeySet stores a JWKs in the OAuth server
 func (s *RemoteService) SetKeySet(jwks keyset.KeySet) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.jwks = jwks
 }
 
+// storedKeySet returns the keyset stored in the OAuth server, if any
+func (s *RemoteService) storedKeySet() keyset.KeySet {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.jwks
+}
+
+// storeKeySet stores the keyset unless another one has been stored meanwhile
+func (s *RemoteService) storeKeySet(jwks keyset.KeySet) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.jwks == nil {
+		s.jwks = jwks
+	}
+}
+
+// config returns the discovery configuration, loading it first if necessary
+func (s *RemoteService) config() DiscoveryConfig {
+	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.DiscoveryConfig
+}
+
 // JwksEndpoint returns the /publicKeys endpoint of the OAuth server
 func (s *RemoteService) JwksEndpoint() string {
-	_ = s.initialize()
-	return s.JwksURL
+	return s.config().JwksURL
 }
 
 // TokenEndpoint returns the /token endpoint of the OAuth server
 func (s *RemoteService) TokenEndpoint() string {
-	_ = s.initialize()
-	return s.TokenURL
+	return s.config().TokenURL
 }
 
 // AuthorizationEndpoint returns the /authorization endpoint of the OAuth server
 func (s *RemoteService) AuthorizationEndpoint() string {
-	_ = s.initialize()
-	return s.AuthURL
+	return s.config().AuthURL
 }
 
 // UserInfoEndpoint returns the /userinfo endpoint of the OAuth server
 func (s *RemoteService) UserInfoEndpoint() string {
-	_ = s.initialize()
-	return s.UserInfoURL
+	return s.config().UserInfoURL
 }
 
 // GetTokens performs a request to the token endpoint
 func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSecret string, authorizationCode string, redirectURI string, refreshToken string) (*TokenResponse, error) {
-	_ = s.initialize()
-
 	form := url.Values{}
 
 	if refreshToken != "" {
@@ -140,7 +166,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	}
 
 	// Create request
-	req, err := http.NewRequest("POST", s.TokenURL, strings.NewReader(form.Encode()))
+	req, err := http.NewRequest("POST", s.TokenEndpoint(), strings.NewReader(form.Encode()))
 	if err != nil {
 		zap.L().Warn("Could not serialize HTTP request", zap.Error(err))
 		return nil, err
@@ -166,9 +192,16 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	return tokenResponse, nil
 }
 
+// isInitialized tells whether the discovery configuration was loaded
+func (s *RemoteService) isInitialized() bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.initialized
+}
+
 // initialize attempts to load the Client configuration from the discovery endpoint
 func (s *RemoteService) initialize() error {
-	if s.initialized {
+	if s.isInitialized() {
 		return nil
 	}
 
@@ -177,7 +210,7 @@ func (s *RemoteService) initialize() error {
 	// taking place at once. All threads coming into this call will wait for
 	// a single response, which can then be processed
 	_, err := s.requestGroup.Do(s.discoveryURL, func() (interface{}, error) {
-		if s.initialized {
+		if s.isInitialized() {
 			return http.StatusOK, nil
 		}
 		return s.loadDiscoveryEndpoint()
@@ -210,8 +243,10 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
-	s.initialized = true
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.DiscoveryConfig = *config
+	s.initialized = true
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 84997f75d5fd6cc80432d67c55a0cc2f453ae2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 07/27] fix: read the cookie cipher under its lock

---
 adapter/strategy/web/web.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..ebaefc4 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -58,7 +58,7 @@ type WebStrategy struct {
 	kubeClient kubernetes.Interface
 
 	// mutex protects all fields below
-	mutex      *sync.Mutex
+	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
 }
@@ -81,7 +81,6 @@ func New(ctx *config.Config, kubeClient kubernetes.Interface) strategy.Strategy
 		ctx:        ctx,
 		tokenUtil:  validator.NewTokenValidator(adapterPolicy.OIDC),
 		kubeClient: kubeClient,
-		mutex:      &sync.Mutex{},
 		tokenCache: new(sync.Map),
 	}
 
@@ -352,20 +351,13 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 // getSecureCookie retrieves the SecureCookie encryption struct in a
 // thread safe manner.
 func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
-	// Allow all threads to check if instance already exists
-	if w.encrpytor != nil {
-		return w.encrpytor, nil
-	}
 	w.mutex.Lock()
-	// Once this thread has the lock check again to see if it had been set while waiting
+	defer w.mutex.Unlock()
 	if w.encrpytor != nil {
-		w.mutex.Unlock()
 		return w.encrpytor, nil
 	}
 	// We need to generate a new key set
-	sc, err := w.generateSecureCookie()
-	w.mutex.Unlock()
-	return sc, err
+	return w.generateSecureCookie()
 }
 
 // generateSecureCookie instantiates a SecureCookie instance using either the preconfigured
-- 
2.43.0


From 04f2f2fcc314214cf3494a2e46e7fd8fb52af8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 08/27] fix: generate session ids and login states with
 crypto/rand

The shared math/rand source was seeded with the start time, predictable, and
not safe for concurrent use.
---
 adapter/strategy/web/utils.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..b0759f9 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -1,12 +1,12 @@
 package webstrategy
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/url"
 	"time"
-	"unsafe"
 
 	"go.uber.org/zap"
 
@@ -15,31 +15,21 @@ import (
 )
 
 const (
-	letterBytes   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
-	letterIdxBits = 6                    // 6 bits to represent a letter index
-	letterIdxMask = 1<<letterIdxBits - 1 // All 1-bits, as many as letterIdxBits
-	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
+	letterBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 )
 
-var src = rand.NewSource(time.Now().UnixNano())
-
-// randString generates a random string of the given size
+// randString generates an unpredictable random string of the given size
 func randString(n int) string {
 	b := make([]byte, n)
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := n-1, src.Int63(), letterIdxMax; i >= 0; {
-		if remain == 0 {
-			cache, remain = src.Int63(), letterIdxMax
-		}
-		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
-			b[i] = letterBytes[idx]
-			i--
+	for i := range b {
+		idx, err := rand.Int(rand.Reader, big.NewInt(int64(len(letterBytes))))
+		if err != nil {
+			// Without entropy neither sessions nor login states are safe
+			zap.L().Panic("Could not read random bytes", zap.Error(err))
 		}
-		cache >>= letterIdxBits
-		remain--
+		b[i] = letterBytes[idx.Int64()]
 	}
-
-	return *(*string)(unsafe.Pointer(&b))
+	return string(b)
 }
 
 // generateAuthorizationURL builds the /authorization request that begins an OAuth 2.0 / OIDC flow
-- 
2.43.0


From 895e6b69d84ac6e4ad4b879c67568280e0900c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 09/27] fix: a failed cache read is not a deletion

---
 adapter/policy/controller/controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 18f76d8..504ffc7 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -104,6 +104,8 @@ func (c *Controller) processNextItem() bool {
 			c.Queue.Forget(key)
 			utilruntime.HandleError(err)
 		}
+		// nothing is known about the item: neither deleted nor updated
+		return true
 	}
 
 	// if the item doesn't exist then it was deleted and we need to fire off the handler's
-- 
2.43.0


From 91e5eab10f2bbe1db45e6479d43b4b1490859e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 10/27] fix: do not modify objects owned by the informer cache

Besides racing with its other readers, it left the resolved client secret there.
---
 .../handler/crdeventhandler/add_event.go      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..b19a655 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -34,23 +34,26 @@ type PolicyAddEventHandler struct {
 
 func (e *JwtConfigAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Info("Create/Update JwtConfig", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.Name), zap.String("namespace", e.Obj.Namespace))
-	e.Obj.Spec.ClientName = e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
-	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New(e.Obj.Spec.JwksURL, nil))
+	// The object belongs to the informer cache and must not be modified
+	clientName := e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
+	e.Store.AddKeySet(clientName, keyset.New(e.Obj.Spec.JwksURL, nil))
 	zap.L().Info("JwtConfig created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 }
 
 func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update OidcConfig", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
-	e.Obj.Spec.ClientName = e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
-	if e.Obj.Spec.AuthMethod == "" {
-		e.Obj.Spec.AuthMethod = "client_secret_basic"
+	// The object belongs to the informer cache and must not be modified
+	spec := *e.Obj.Spec.DeepCopy()
+	spec.ClientName = e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
+	if spec.AuthMethod == "" {
+		spec.AuthMethod = "client_secret_basic"
 	}
-	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
+	authorizationServer := authserver.New(spec.DiscoveryURL)
 	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
 	authorizationServer.SetKeySet(keySets)
-	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
+	spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
-	oidcClient := client.New(e.Obj.Spec, authorizationServer)
+	oidcClient := client.New(spec, authorizationServer)
 	e.Store.AddClient(oidcClient.Name(), oidcClient)
 	zap.L().Info("OidcConfig created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.Name), zap.String("namespace", e.Obj.Namespace))
 }
-- 
2.43.0


From e81dec185f9efc746c37f68923a0831c6bcc098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 11/27] fix: do not pin a key set without URL while discovery
 is down

The client kept rejecting all tokens after the provider came back.
---
 adapter/policy/handler/crdeventhandler/add_event.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index b19a655..5c0ded3 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -49,8 +49,10 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// Without discovery data the key set is created once its URL is known
+	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
+		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
+	}
 	spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(spec, authorizationServer)
-- 
2.43.0


From cb48ef4d7f3df5b2e6d15548476c51bcea32687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 12/27] fix: bound the user-info call and close its response
 body

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..da30c00 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 )
@@ -147,7 +148,6 @@ func (*JwtTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset
 
 // validateAccessTokenString validates the access token string
 func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules []v1.Rule) *errors.OAuthError {
-	client := &http.Client{}
 	req, err := http.NewRequest("GET", userInfoEndpoint, nil)
 
 	if err != nil {
@@ -156,7 +156,7 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	}
 
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
-	res, err := client.Do(req)
+	res, err := networking.New().Do(req, nil, nil)
 	if err != nil {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
-- 
2.43.0


From ed7a0f4f75885a659c823e7c3a96947a58624823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 13/27] fix: keep tokens and request headers out of warning and
 error logs

---
 adapter/adapter.go             | 2 +-
 adapter/validator/validator.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index c826d7f..09ef312 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -52,7 +52,7 @@ type (
 func (s *AppidAdapter) HandleAuthnZ(ctx context.Context, r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
 	///// Validate input /////
 	if err := validateAuthnzRequest(r); err != nil {
-		zap.S().Errorf("Unexpected template format for HandleAuthnZRequest: %v", r)
+		zap.L().Error("Unexpected template format for HandleAuthnZRequest", zap.Error(err))
 		return nil, err
 	}
 
diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index da30c00..9db6139 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -158,12 +158,12 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
 	res, err := networking.New().Do(req, nil, nil)
 	if err != nil {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
+		zap.L().Warn("Unauthorized - invalid token", zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
 	if res.StatusCode != http.StatusOK {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
+		zap.L().Warn("Unauthorized - invalid token", zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
 	}
 
-- 
2.43.0


From 7f86b33bffd9a57f07f12bed3072725def972b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 14/27] fix: updating a policy clears the endpoints it no
 longer declares

---
 adapter/policy/handler/crdeventhandler/add_event.go |  8 ++++++++
 .../policy/handler/crdeventhandler/delete_event.go  | 13 +++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 5c0ded3..86803cd 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -64,9 +64,17 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
 	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
+	declared := make(map[policy.Endpoint]struct{})
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
 		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
+		declared[policies.Endpoint] = struct{}{}
+	}
+	// Clear the endpoints an earlier version of the policy declared
+	for _, previous := range e.Store.GetPolicyMapping(mappingId) {
+		if _, ok := declared[previous.Endpoint]; !ok {
+			clearEndpoint(e.Store, previous.Endpoint, mappingId)
+		}
 	}
 	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 61ed5a4..c2a869e 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -39,16 +39,21 @@ func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
 	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
-		if storedPolicy.PolicyReference == e.Key {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
+		clearEndpoint(e.Store, policies.Endpoint, e.Key)
 	}
 	// remove entry from policyMapping
 	e.Store.DeletePolicyMapping(e.Key)
 	zap.S().Debug("Delete policy completed")
 }
 
+// clearEndpoint removes the actions stored for the endpoint if they belong to the given policy
+func clearEndpoint(store storepolicy.PolicyStore, endpoint policy.Endpoint, reference string) {
+	storedPolicy := store.GetPolicies(endpoint)
+	if storedPolicy.PolicyReference == reference {
+		store.SetPolicies(endpoint, policy.NewRoutePolicy())
+	}
+}
+
 func GetDeleteEventHandler(crd policy.CrdKey, store storepolicy.PolicyStore) DeleteEventHandler {
 	switch crd.CrdType {
 	case v1.JWTCONFIG:
-- 
2.43.0


From 1da52619707c16a8cce85ba23d1363ee7dca2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 15/27] fix: admit the documented PATCH method in the Policy
 schema

---
 helm/appidentityandaccessadapter/templates/policy.yaml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helm/appidentityandaccessadapter/templates/policy.yaml b/helm/appidentityandaccessadapter/templates/policy.yaml
index 37b2ea8..e953b44 100644
--- a/helm/appidentityandaccessadapter/templates/policy.yaml
+++ b/helm/appidentityandaccessadapter/templates/policy.yaml
@@ -48,6 +48,7 @@ spec:
                                                         - ALL
                                                         - GET
                                                         - DELETE
+                                                        - PATCH
                                                         - POST
                                                         - PUT
                                                 policies:
-- 
2.43.0


From 530b143003c02a222c9fc2b57f322907a38aec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 16/27] fix: redirect to the requested site after logout

A path such as //other.example/oidc/logout redirected to another host.
---
 adapter/strategy/web/web.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index ebaefc4..1c1691f 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -246,7 +246,8 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.tokenCache.Delete(cookie.Value)
 	}
 
-	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	// An absolute URL: a bare path may be empty or, starting with two slashes, name another host
+	redirectURL := strings.TrimSuffix(buildRequestURL(r.Instance.Request), logoutEndpoint)
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From 54e521019395cbed1d3508991c4c242360922cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 17/27] fix: no login redirect without the provider's
 authorization endpoint

Before the first successful discovery the authorization endpoint is empty,
and the login redirect pointed at the requested page itself.
---
 adapter/strategy/web/utils.go | 7 ++++++-
 adapter/strategy/web/web.go   | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index b0759f9..e0da2e0 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -39,7 +39,12 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 		zap.L().Warn("Authorization server has not been configured for client", zap.Error(errors.New("authorization server has not been configured")), zap.String("client_name", c.Name()))
 		return ""
 	}
-	baseUrl, err := url.Parse(server.AuthorizationEndpoint())
+	endpoint := server.AuthorizationEndpoint()
+	if endpoint == "" {
+		zap.L().Warn("Authorization endpoint has not been discovered", zap.String("client_name", c.Name()))
+		return ""
+	}
+	baseUrl, err := url.Parse(endpoint)
 	if err != nil {
 		zap.L().Warn("Malformed Authorization URL", zap.Error(err))
 		return ""
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 1c1691f..c86b202 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -331,6 +331,10 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 		zap.L().Info("Could not generate state parameter", zap.Error(err), zap.String("client_name", action.Client.Name()))
 		return nil, err
 	}
+	authorizationURL := generateAuthorizationURL(action.Client, redirectURI, state)
+	if authorizationURL == "" {
+		return nil, errors.New("the identity provider's authorization endpoint is not known")
+	}
 	zap.S().Debugf("Initiating redirect to identity provider using redirect URL: %s", redirectURI)
 	return &authnz.HandleAuthnZResponse{
 		Result: &v1beta1.CheckResult{
@@ -340,7 +344,7 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 				Details: []*types.Any{status.PackErrorDetail(&policy.DirectHttpResponse{
 					Code: policy.Found, // Response Mixer remaps on request
 					Headers: map[string]string{
-						location:  generateAuthorizationURL(action.Client, redirectURI, state),
+						location:  authorizationURL,
 						setCookie: stateCookie.String(),
 					},
 				})},
-- 
2.43.0


From 1839254da9b0410782cf0abf68a137429fdf91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 18/27] fix: escape the client id in cookie names

net/http renders a cookie whose name is not an HTTP token as the empty
string and ignores such cookies when reading. For a client id with any
other character (a space, '@', ':', '/') the login redirect therefore
carried an empty Set-Cookie and the state never reached the browser.
---
 adapter/strategy/web/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index e0da2e0..0ff0c96 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -72,7 +72,8 @@ func buildRequestURL(action *authnz.RequestMsg) string {
 
 // buildTokenCookieName constructs the cookie name
 func buildTokenCookieName(base string, c client.Client) string {
-	return base + "-" + c.ID()
+	// A cookie name is an HTTP token: other characters of the client id would void the cookie
+	return base + "-" + url.QueryEscape(c.ID())
 }
 
 // generateSessionIDCookie creates a new sessionId cookie
-- 
2.43.0


From 65f41ce094ede3c6e61e13e9a11c0ca8642b5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 19/27] fix: a logout is not undone by a token refresh in
 progress

---
 adapter/strategy/web/web.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index c86b202..27400b1 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -61,6 +61,9 @@ type WebStrategy struct {
 	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
+
+	// sessionMutex makes replacing a session's tokens atomic with respect to ending the session
+	sessionMutex sync.Mutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -165,7 +168,7 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		}
 
 		zap.L().Debug("Tokens are invalid - starting a new session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value), zap.Error(validationErr))
-		w.tokenCache.Delete(sessionCookie.Value)
+		w.endSession(sessionCookie.Value)
 		return nil, nil
 	}
 
@@ -209,7 +212,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 		cookie := generateSessionIDCookie(c, &sessionID)
-		w.tokenCache.Store(cookie.Value, tokens)
+		if !w.replaceSession(cookie.Value, tokens) {
+			zap.L().Debug("Session ended while its tokens were refreshed", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+			return nil, nil
+		}
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
 			Output: &authnz.OutputMsg{
@@ -220,6 +226,24 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	}
 }
 
+// endSession removes the session
+func (w *WebStrategy) endSession(sessionID string) {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	w.tokenCache.Delete(sessionID)
+}
+
+// replaceSession stores new tokens for the session unless it has ended meanwhile
+func (w *WebStrategy) replaceSession(sessionID string, tokens *authserver.TokenResponse) bool {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	if _, ok := w.tokenCache.Load(sessionID); !ok {
+		return false
+	}
+	w.tokenCache.Store(sessionID, tokens)
+	return true
+}
+
 // handleErrorCallback returns an Unauthenticated CheckResult
 func (w *WebStrategy) handleErrorCallback(err error) (*authnz.HandleAuthnZResponse, error) {
 	message := "internal server error"
@@ -243,7 +267,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 
 	if cookie, err := request.Cookie(cookieName); err == nil {
 		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
-		w.tokenCache.Delete(cookie.Value)
+		w.endSession(cookie.Value)
 	}
 
 	// An absolute URL: a bare path may be empty or, starting with two slashes, name another host
-- 
2.43.0


From 441eb65bc482434d8b52a1a89e03ebab4e56b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 20/27] fix: compare numeric claims without rounding

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 9db6139..3c3b7db 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -317,7 +317,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 		m[strconv.FormatBool(t)] = struct{}{}
 		return m, nil
 	case float64:
-		m[strconv.FormatFloat(t, 'f', 0, 64)] = struct{}{}
+		m[strconv.FormatFloat(t, 'f', -1, 64)] = struct{}{}
 		return m, nil
 	case string:
 		for _, v := range strings.Split(t, " ") {
@@ -330,7 +330,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 			case string:
 				m[s2] = struct{}{}
 			case float64:
-				m[strconv.FormatFloat(s2, 'f', 0, 64)] = struct{}{}
+				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}
 			case bool:
 				m[strconv.FormatBool(s2)] = struct{}{}
 			default:
-- 
2.43.0


From 64d4727689aabcbc45d349498906c25e20227f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 21/27] fix: refresh a session whose access token is an expired
 JWT

---
 adapter/validator/validator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 3c3b7db..4b97631 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -91,7 +91,8 @@ func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks key
 	// Parse the token - validate expiration and signature
 	token, err := validateSignature(tokenStr, jwks)
 	if err != nil {
-		if tokenType != Access {
+		// an expired JWT is no opaque token: only its expiry lets the session be refreshed
+		if tokenType != Access || err.Error() == errors.ExpiredToken {
 			zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 		}
-- 
2.43.0


From a491218992f8669b32777722fa50700225ec4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 22/27] fix: keep the refresh token when a refresh issues no
 new one

---
 adapter/strategy/web/web.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 27400b1..306039d 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -212,6 +212,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 		cookie := generateSessionIDCookie(c, &sessionID)
+		if tokens.RefreshToken == "" {
+			// The refresh token stays in use when no new one is issued
+			tokens.RefreshToken = session.RefreshToken
+		}
 		if !w.replaceSession(cookie.Value, tokens) {
 			zap.L().Debug("Session ended while its tokens were refreshed", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 			return nil, nil
-- 
2.43.0


From eec544c2618a9acf7a27e2697278b82e5f63e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 23/27] fix: find the root's policies when slashes or the
 adapter's segment were all of the path

---
 adapter/policy/engine/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 33b59f8..8353aa2 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -57,6 +57,10 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
 		target.Path = strings.TrimSuffix(target.Path, logoutEndpoint)
 	}
+	if target.Path == "" {
+		// What is left of the root once slashes and components are stripped
+		target.Path = "/"
+	}
 
 	// Get All policies protecting target
 	policies, err := m.getPolicies(endpointsToCheck(target))
-- 
2.43.0


From 5e4852ab6dda5237cdd9d7a84f1d732790709359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 24/27] fix: return to the requested page after login

The redirect URI of a login that starts at the callback endpoint named that
endpoint twice, and a requested page whose own path contains it was cut there.
---
 adapter/strategy/web/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 306039d..4b917d0 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -352,7 +352,7 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 
 // handleAuthorizationCodeFlow initiates an OAuth 2.0 / OIDC authorization_code grant flow.
 func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, action *engine.Action) (*authnz.HandleAuthnZResponse, error) {
-	redirectURI := buildRequestURL(request) + callbackEndpoint
+	redirectURI := strings.TrimSuffix(buildRequestURL(request), callbackEndpoint) + callbackEndpoint
 	// / Build and store session state
 	state, stateCookie, err := w.buildStateParam(action.Client)
 	if err != nil {
@@ -509,7 +509,7 @@ func (w *WebStrategy) parseAndValidateCookie(cookie *http.Cookie) *OidcCookie {
 // to the provided url with the accompanying cookie headers
 func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *authnz.HandleAuthnZResponse {
 	headers := make(map[string]string)
-	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]
+	headers[location] = strings.TrimSuffix(redirectURI, callbackEndpoint)
 	for _, cookie := range cookies {
 		headers[setCookie] = cookie.String()
 		zap.S().Debugf("Appending cookie to response: %s", cookie.String())
-- 
2.43.0


From 4cf24ae80ee66e5280680a4636e58b166b934441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 25/27] fix: deep copies of policies and OIDC configurations
 share nothing with the original

The generated copies predate the rules of a policy and the scopes of an OIDC
configuration, so both were shared with the object copied.
---
 .../apis/policies/v1/zz_generated.deepcopy.go | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
index df10e7a..e3b1dfd 100644
--- a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
+++ b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
@@ -121,7 +121,7 @@ func (in *OidcConfig) DeepCopyInto(out *OidcConfig) {
 	*out = *in
 	out.TypeMeta = in.TypeMeta
 	in.ObjectMeta.DeepCopyInto(&out.ObjectMeta)
-	out.Spec = in.Spec
+	in.Spec.DeepCopyInto(&out.Spec)
 	return
 }
 
@@ -180,6 +180,11 @@ func (in *OidcConfigList) DeepCopyObject() runtime.Object {
 func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
 	*out = *in
 	out.ClientSecretRef = in.ClientSecretRef
+	if in.Scopes != nil {
+		in, out := &in.Scopes, &out.Scopes
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
 	return
 }
 
@@ -199,7 +204,9 @@ func (in *PathConfig) DeepCopyInto(out *PathConfig) {
 	if in.Policies != nil {
 		in, out := &in.Policies, &out.Policies
 		*out = make([]PathPolicy, len(*in))
-		copy(*out, *in)
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
 	}
 	return
 }
@@ -217,6 +224,13 @@ func (in *PathConfig) DeepCopy() *PathConfig {
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *PathPolicy) DeepCopyInto(out *PathPolicy) {
 	*out = *in
+	if in.Rules != nil {
+		in, out := &in.Rules, &out.Rules
+		*out = make([]Rule, len(*in))
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
+	}
 	return
 }
 
@@ -313,6 +327,27 @@ func (in *PolicySpec) DeepCopy() *PolicySpec {
 	return out
 }
 
+// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
+func (in *Rule) DeepCopyInto(out *Rule) {
+	*out = *in
+	if in.Values != nil {
+		in, out := &in.Values, &out.Values
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
+	return
+}
+
+// DeepCopy is an autogenerated deepcopy function, copying the receiver, creating a new Rule.
+func (in *Rule) DeepCopy() *Rule {
+	if in == nil {
+		return nil
+	}
+	out := new(Rule)
+	in.DeepCopyInto(out)
+	return out
+}
+
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *TargetElement) DeepCopyInto(out *TargetElement) {
 	*out = *in
-- 
2.43.0


From efdfaa94feb82c7f092c2b539676a579316dcba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 26/27] fix: stop serving when the adapter is told to terminate

The controllers catch SIGTERM and SIGINT and stop; the server went on deciding
requests by policies that were no longer updated, until it was killed.
---
 cmd/main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 5ddbbe4..9c645a1 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -3,6 +3,8 @@ package main
 import (
 	"fmt"
 	"os"
+	"os/signal"
+	"syscall"
 
 	"github.com/spf13/cobra"
 	"go.uber.org/zap"
@@ -64,7 +66,16 @@ func runServer(args *config.Config) {
 	go func() {
 		s.Run(shutdown)
 	}()
-	<-shutdown
+
+	// These signals end the processing of configuration changes: no request may be decided without it
+	terminate := make(chan os.Signal, 1)
+	signal.Notify(terminate, syscall.SIGTERM, syscall.SIGINT)
+
+	select {
+	case <-shutdown:
+	case <-terminate:
+		_ = s.Close()
+	}
 }
 
 func main() {
-- 
2.43.0


From 8749c1ffcc3880d666a371809fb553676fa28ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 27/27] fix: refuse RSA key exponents that would be truncated
 to another key

---
 adapter/authserver/keyset/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/authserver/keyset/key.go b/adapter/authserver/keyset/key.go
index 3b1f358..6fab928 100644
--- a/adapter/authserver/keyset/key.go
+++ b/adapter/authserver/keyset/key.go
@@ -68,6 +68,10 @@ func (k *key) decodePublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, errors.New("malformed JWK RSA key exponent")
 		}
+		if len(data) > 4 {
+			// only the first bytes would be taken over: another key than the published one
+			return nil, errors.New("unsupported JWK RSA key exponent")
+		}
 		if len(data) < 4 {
 			ndata := make([]byte, 4)
 			copy(ndata[4-len(data):], data)
-- 
2.43.0

