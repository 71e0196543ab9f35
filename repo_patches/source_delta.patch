From 14a3815a7f1bb7cc5c5daa96b7bcb050ed494247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 01/57] fix: a response nobody waits for no longer stops the
 connection

---
 internal/jsonrpc2/jsonrpc2.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/jsonrpc2/jsonrpc2.go b/internal/jsonrpc2/jsonrpc2.go
index 62c8141..e88d6dd 100644
--- a/internal/jsonrpc2/jsonrpc2.go
+++ b/internal/jsonrpc2/jsonrpc2.go
@@ -149,7 +149,9 @@ func (c *Conn) Call(ctx context.Context, method string, params, result interface
 	}
 	// we have to add ourselves to the pending map before we send, otherwise we
 	// are racing the response
-	rchan := make(chan *WireResponse)
+	// (buffered, so that delivering the response never waits for a caller that
+	// has given up in the meantime)
+	rchan := make(chan *WireResponse, 1)
 	c.pendingMu.Lock()
 	c.pending[id] = rchan
 	c.pendingMu.Unlock()
@@ -380,6 +382,13 @@ func (c *Conn) Run(runCtx context.Context) error {
 				delete(c.pending, *msg.ID)
 			}
 			c.pendingMu.Unlock()
+			if rchan == nil {
+				// nobody is waiting (any more), the response has no receiver
+				for _, h := range c.handlers {
+					h.Error(runCtx, fmt.Errorf("response to unknown call %v, ignoring", msg.ID))
+				}
+				continue
+			}
 			// and send the reply to the channel
 			response := &WireResponse{
 				Result: msg.Result,
-- 
2.43.0


From 4f9717bf055c53ec869e6a28fabd900eb8a8e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 02/57] fix: answer cancelled requests too

---
 internal/jsonrpc2/jsonrpc2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/jsonrpc2/jsonrpc2.go b/internal/jsonrpc2/jsonrpc2.go
index e88d6dd..7f5ee7d 100644
--- a/internal/jsonrpc2/jsonrpc2.go
+++ b/internal/jsonrpc2/jsonrpc2.go
@@ -13,6 +13,8 @@ import (
 	"fmt"
 	"sync"
 	"sync/atomic"
+
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
 )
 
 // Conn is a JSON RPC 2 client server connection.
@@ -266,7 +268,8 @@ func (r *Request) Reply(ctx context.Context, result interface{}, err error) erro
 	for _, h := range r.conn.handlers {
 		ctx = h.Response(ctx, r.conn, Send, response)
 	}
-	n, err := r.conn.stream.Write(ctx, data)
+	// a cancelled request still has to be answered
+	n, err := r.conn.stream.Write(xcontext.Detach(ctx), data)
 	for _, h := range r.conn.handlers {
 		ctx = h.Wrote(ctx, n)
 	}
-- 
2.43.0


From e567443c32c5bc08e81db9922f50d22d4a962a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 03/57] fix: line starts for lone carriage returns and after
 edits that split or join line endings

---
 analysis/document.go | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 4371962..0e021e6 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -134,7 +134,7 @@ func calculateLineOffsets(text []byte, offset int) ([]int, string) {
 			isLineStart = false
 		}
 		if r == '\r' {
-			if len(text) > 0 {
+			if len(text) > size {
 				nextR, nextSize := utf8.DecodeRune(text[size:])
 				if nextR == '\n' {
 					text = text[size+nextSize:]
@@ -146,14 +146,14 @@ func calculateLineOffsets(text []byte, offset int) ([]int, string) {
 					lineOffsets = append(lineOffsets, n+offset)
 					continue
 				}
-			} else {
-				if !stopDetectingEol {
-					eol = "\r"
-					stopDetectingEol = true
-				}
 			}
-			lineOffsets = append(lineOffsets, n+offset)
+			if !stopDetectingEol {
+				eol = "\r"
+				stopDetectingEol = true
+			}
+			lineOffsets = append(lineOffsets, n+offset+size)
 		} else if r == '\n' {
+			stopDetectingEol = true
 			lineOffsets = append(lineOffsets, n+offset+size)
 		}
 		text = text[size:]
@@ -574,24 +574,9 @@ func (s *Document) ApplyChanges(changes []protocol.TextDocumentContentChangeEven
 		newText := append(s.text[:0:0], s.text[0:startOffset]...)
 		newText = append(newText, text...)
 		newText = append(newText, s.text[endOffset:]...)
-		s.text = newText
-
-		min := start.Line + 1
-		if min > len(s.lineOffsets) {
-			min = len(s.lineOffsets)
-		}
-		newLineOffsets := append(s.lineOffsets[:0:0], s.lineOffsets[0:min]...)
-		lengthDiff := len(text) - (endOffset - startOffset)
-		offsets, eol := calculateLineOffsets(text, startOffset)
-		s.detectedEOL = eol
-		newLineOffsets = append(newLineOffsets, offsets[1:]...)
-		if end.Line+1 < len(s.lineOffsets) {
-			endLineOffsets := s.lineOffsets[end.Line+1:]
-			for _, endLineOffset := range endLineOffsets {
-				newLineOffsets = append(newLineOffsets, endLineOffset+lengthDiff)
-			}
-		}
-		s.lineOffsets = newLineOffsets
+		// An edit may split or join line endings around it, so the lines are
+		// those of the whole new text
+		s.SetText(newText)
 	}
 	util.TimeTrack(start, "contentChanges")
 	start = time.Now()
-- 
2.43.0


From 59aeb9a5570008930ca92a92c591b8d9af2213b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 04/57] fix: positions count UTF-16 code units and stay within
 their line

---
 analysis/document.go | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 0e021e6..192c714 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -183,30 +183,47 @@ func (s *Document) offsetAtLine(line int) int {
 
 func (s *Document) positionAt(offset int) protocol.Position {
 	line := s.lineAt(offset)
+	end := offset
+	if end > len(s.text) {
+		end = len(s.text)
+	}
+	character := 0
+	for i := s.lineOffsets[line]; i < end; {
+		r, size := utf8.DecodeRune(s.text[i:])
+		character += utf16Len(r)
+		i += size
+	}
 	return protocol.Position{
 		Line:      line,
-		Character: offset - s.lineOffsets[line],
+		Character: character,
+	}
+}
+
+// utf16Len returns the number of UTF-16 code units of the rune, which is how
+// the protocol counts characters
+func utf16Len(r rune) int {
+	if r > 0xFFFF {
+		return 2
 	}
+	return 1
 }
 
+// OffsetAtPosition returns the offset of the position in the text, a character
+// past the end of a line is the end of that line
 func (s *Document) OffsetAtPosition(pos protocol.Position) int {
-	offset := s.offsetAtLine(pos.Line)
-	offsetCharacter := 0
-	for i := 0; i < pos.Character; i++ {
-		_, size := utf8.DecodeRune(s.text[offset+offsetCharacter:])
-		offsetCharacter += size
-	}
-	offset += offsetCharacter
-	min := 0
-	if offset < len(s.text) {
-		min = offset
-	} else {
-		min = len(s.text)
+	if pos.Line >= len(s.lineOffsets) {
+		return len(s.text)
 	}
-	if 0 > min {
-		return 0
+	offset := s.offsetAtLine(pos.Line)
+	for i := 0; i < pos.Character && offset < len(s.text); {
+		r, size := utf8.DecodeRune(s.text[offset:])
+		if r == '\n' || r == '\r' {
+			break
+		}
+		i += utf16Len(r)
+		offset += size
 	}
-	return min
+	return offset
 }
 
 // NodeRange returns the lsp range of the given node
-- 
2.43.0


From d1ea14a7c7b17b31b3d589b48d49f1e8463e13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 05/57] fix: forget completion entries of removed symbols and
 deleted documents

Entries of names a document no longer declares were collected but never
deleted, deletion looked for them in the wrong database, and namespaces
declared by several documents shared one entry.
---
 analysis/completionIndex.go |  304 ++---
 analysis/store.go           | 2318 ++++++++++++++++++-----------------
 2 files changed, 1317 insertions(+), 1305 deletions(-)

diff --git a/analysis/completionIndex.go b/analysis/completionIndex.go
index 82affd7..aeabcd4 100644
--- a/analysis/completionIndex.go
+++ b/analysis/completionIndex.go
@@ -1,152 +1,152 @@
-package analysis
-
-import (
-	"strings"
-
-	"github.com/john-nguyen09/phpintel/analysis/storage"
-	"github.com/john-nguyen09/phpintel/analysis/wordtokeniser"
-	"github.com/junegunn/fzf/src/algo"
-	"github.com/junegunn/fzf/src/util"
-	"github.com/zyedidia/generic/mapset"
-)
-
-// CompletionValue holds references to uri and name
-type CompletionValue string
-
-type onDataResult struct {
-	shouldStop bool
-}
-
-type searchQuery struct {
-	collection string
-	keyword    string
-	onData     func(CompletionValue) onDataResult
-}
-
-type SearchResult struct {
-	IsComplete bool
-}
-
-func isMatch(str string, pattern []rune) (bool, int) {
-	chars := util.ToChars([]byte(str))
-	result, _ := algo.FuzzyMatchV2(false, true, true, &chars, pattern, false, nil)
-	return result.Score > 0, result.Score
-}
-
-// Serialise writes the CompletionValue
-func (cv CompletionValue) Serialise(e *storage.Encoder) {
-	e.WriteString(string(cv))
-}
-
-func readCompletionValue(d *storage.Decoder) CompletionValue {
-	return CompletionValue(d.ReadString())
-}
-
-func createCompletionEntries(uri string, indexable NameIndexable, symbolKey string) []*entry {
-	entries := []*entry{}
-	keys := getCompletionKeys(uri, indexable, symbolKey)
-	completionKeys := [][]byte{}
-	for _, key := range keys {
-		entry := newEntry(indexable.GetIndexCollection(), key)
-		completionValue := CompletionValue(symbolKey)
-		completionValue.Serialise(entry.e)
-		entries = append(entries, entry)
-
-		completionKeys = append(completionKeys, entry.getKeyBytes())
-	}
-	entries = append(entries, createEntryToReferCompletionIndex(uri, symbolKey, completionKeys))
-	return entries
-}
-
-func createEntryToReferCompletionIndex(uri string, symbolKey string, keys [][]byte) *entry {
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
-	entry.e.WriteInt(len(keys))
-	for _, key := range keys {
-		entry.e.WriteBytes(key)
-	}
-	return entry
-}
-
-type completionIndexDeletor struct {
-	indexKeys map[string]bool
-	keys      map[string]bool
-}
-
-func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
-	indexKeys := map[string]bool{}
-	keys := map[string]bool{}
-	entry := newEntry(documentCompletionIndex, uri)
-	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		keys[string(it.Key())] = true
-		d := storage.NewDecoder(it.Value())
-		len := d.ReadInt()
-		if len > 0 {
-			for i := 0; i < len; i++ {
-				key := d.ReadBytes()
-				indexKeys[string(key)] = true
-			}
-		}
-	})
-	return &completionIndexDeletor{indexKeys, keys}
-}
-
-func (d *completionIndexDeletor) MarkNotDelete(uri string, indexable NameIndexable, symbolKey string) {
-	keys := getCompletionKeys(uri, indexable, symbolKey)
-	for _, key := range keys {
-		entry := newEntry(indexable.GetIndexCollection(), key)
-		delete(d.indexKeys, string(entry.getKeyBytes()))
-	}
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
-	delete(d.keys, string(entry.getKeyBytes()))
-}
-
-func (d *completionIndexDeletor) Delete(b storage.Batch) {
-	for indexKey := range d.indexKeys {
-		b.Delete([]byte(indexKey))
-	}
-	for key := range d.keys {
-		b.Delete([]byte(key))
-	}
-}
-
-func getCompletionKeys(uri string, indexable NameIndexable, symbolKey string) []string {
-	tokens := wordtokeniser.Tokenise(indexable.GetIndexableName())
-	keys := []string{}
-	for _, token := range tokens {
-		token = strings.ToLower(token)
-		keys = append(keys, getCompletionKey(token, symbolKey))
-	}
-	return keys
-}
-
-func getCompletionKey(token string, symbolKey string) string {
-	return token + KeySep + symbolKey
-}
-
-func searchCompletions(db storage.DB, query searchQuery) SearchResult {
-	uniqueCompletionValues := mapset.New[CompletionValue]()
-	isComplete := true
-	words := wordtokeniser.Tokenise(query.keyword)
-	shouldStop := false
-	for _, word := range words {
-		if shouldStop {
-			break
-		}
-		word = strings.ToLower(word)
-		entry := newEntry(query.collection, word)
-		db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-			completionValue := readCompletionValue(storage.NewDecoder(it.Value()))
-			if uniqueCompletionValues.Has(completionValue) {
-				return
-			}
-			result := query.onData(completionValue)
-			uniqueCompletionValues.Put(completionValue)
-			if result.shouldStop {
-				isComplete = false
-				shouldStop = true
-				it.Stop()
-			}
-		})
-	}
-	return SearchResult{isComplete}
-}
+package analysis
+
+import (
+	"strings"
+
+	"github.com/john-nguyen09/phpintel/analysis/storage"
+	"github.com/john-nguyen09/phpintel/analysis/wordtokeniser"
+	"github.com/junegunn/fzf/src/algo"
+	"github.com/junegunn/fzf/src/util"
+	"github.com/zyedidia/generic/mapset"
+)
+
+// CompletionValue holds references to uri and name
+type CompletionValue string
+
+type onDataResult struct {
+	shouldStop bool
+}
+
+type searchQuery struct {
+	collection string
+	keyword    string
+	onData     func(CompletionValue) onDataResult
+}
+
+type SearchResult struct {
+	IsComplete bool
+}
+
+func isMatch(str string, pattern []rune) (bool, int) {
+	chars := util.ToChars([]byte(str))
+	result, _ := algo.FuzzyMatchV2(false, true, true, &chars, pattern, false, nil)
+	return result.Score > 0, result.Score
+}
+
+// Serialise writes the CompletionValue
+func (cv CompletionValue) Serialise(e *storage.Encoder) {
+	e.WriteString(string(cv))
+}
+
+func readCompletionValue(d *storage.Decoder) CompletionValue {
+	return CompletionValue(d.ReadString())
+}
+
+func createCompletionEntries(uri string, indexable NameIndexable, symbolKey string) []*entry {
+	entries := []*entry{}
+	keys := getCompletionKeys(uri, indexable, symbolKey)
+	completionKeys := [][]byte{}
+	for _, key := range keys {
+		entry := newEntry(indexable.GetIndexCollection(), key)
+		completionValue := CompletionValue(symbolKey)
+		completionValue.Serialise(entry.e)
+		entries = append(entries, entry)
+
+		completionKeys = append(completionKeys, entry.getKeyBytes())
+	}
+	entries = append(entries, createEntryToReferCompletionIndex(uri, symbolKey, completionKeys))
+	return entries
+}
+
+func createEntryToReferCompletionIndex(uri string, symbolKey string, keys [][]byte) *entry {
+	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+	entry.e.WriteInt(len(keys))
+	for _, key := range keys {
+		entry.e.WriteBytes(key)
+	}
+	return entry
+}
+
+type completionIndexDeletor struct {
+	indexKeys map[string]bool
+	keys      map[string]bool
+}
+
+func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
+	indexKeys := map[string]bool{}
+	keys := map[string]bool{}
+	entry := newEntry(documentCompletionIndex, uri+KeySep)
+	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		keys[string(it.Key())] = true
+		d := storage.NewDecoder(it.Value())
+		len := d.ReadInt()
+		if len > 0 {
+			for i := 0; i < len; i++ {
+				key := d.ReadBytes()
+				indexKeys[string(key)] = true
+			}
+		}
+	})
+	return &completionIndexDeletor{indexKeys, keys}
+}
+
+func (d *completionIndexDeletor) MarkNotDelete(uri string, indexable NameIndexable, symbolKey string) {
+	keys := getCompletionKeys(uri, indexable, symbolKey)
+	for _, key := range keys {
+		entry := newEntry(indexable.GetIndexCollection(), key)
+		delete(d.indexKeys, string(entry.getKeyBytes()))
+	}
+	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+	delete(d.keys, string(entry.getKeyBytes()))
+}
+
+func (d *completionIndexDeletor) Delete(b storage.Batch) {
+	for indexKey := range d.indexKeys {
+		b.Delete([]byte(indexKey))
+	}
+	for key := range d.keys {
+		b.Delete([]byte(key))
+	}
+}
+
+func getCompletionKeys(uri string, indexable NameIndexable, symbolKey string) []string {
+	tokens := wordtokeniser.Tokenise(indexable.GetIndexableName())
+	keys := []string{}
+	for _, token := range tokens {
+		token = strings.ToLower(token)
+		keys = append(keys, getCompletionKey(token, symbolKey))
+	}
+	return keys
+}
+
+func getCompletionKey(token string, symbolKey string) string {
+	return token + KeySep + symbolKey
+}
+
+func searchCompletions(db storage.DB, query searchQuery) SearchResult {
+	uniqueCompletionValues := mapset.New[CompletionValue]()
+	isComplete := true
+	words := wordtokeniser.Tokenise(query.keyword)
+	shouldStop := false
+	for _, word := range words {
+		if shouldStop {
+			break
+		}
+		word = strings.ToLower(word)
+		entry := newEntry(query.collection, word)
+		db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+			completionValue := readCompletionValue(storage.NewDecoder(it.Value()))
+			if uniqueCompletionValues.Has(completionValue) {
+				return
+			}
+			result := query.onData(completionValue)
+			uniqueCompletionValues.Put(completionValue)
+			if result.shouldStop {
+				isComplete = false
+				shouldStop = true
+				it.Stop()
+			}
+		})
+	}
+	return SearchResult{isComplete}
+}
diff --git a/analysis/store.go b/analysis/store.go
index 2ba2f37..e506f74 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1,1153 +1,1165 @@
-package analysis
-
-import (
-	"bytes"
-	"context"
-	"log"
-	"os"
-	"path"
-	"strconv"
-	"strings"
-	"time"
-
-	"github.com/Masterminds/semver"
-	"github.com/bep/debounce"
-	"github.com/john-nguyen09/phpintel/analysis/storage"
-	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
-	"github.com/john-nguyen09/phpintel/stub"
-	"github.com/john-nguyen09/phpintel/util"
-	"github.com/john-nguyen09/pogreb"
-	cmap "github.com/orcaman/concurrent-map"
-	"github.com/zyedidia/generic/mapset"
-)
-
-const (
-	documentSymbolsCollection    string = "docSym"
-	classCollection              string = "cla"
-	interfaceCollection          string = "int"
-	traitCollection              string = "tra"
-	functionCollection           string = "fun"
-	constCollection              string = "con"
-	defineCollection             string = "def"
-	methodCollection             string = "met"
-	classConstCollection         string = "claCon"
-	propertyCollection           string = "pro"
-	globalVariableCollection     string = "gloVar"
-	documentCollection           string = "doc"
-	documentNamespacesCollection string = "docNs"
-
-	documentCompletionIndex   string = "docCom"
-	completionDataCollection  string = "comDatCol"
-	functionCompletionIndex   string = "funCom"
-	constCompletionIndex      string = "conCom"
-	defineCompletionIndex     string = "defCom"
-	classCompletionIndex      string = "claCom"
-	interfaceCompletionIndex  string = "intCom"
-	traitCompletionIndex      string = "traCom"
-	methodCompletionIndex     string = "metCom"
-	propertyCompletionIndex   string = "proCom"
-	classConstCompletionIndex string = "claConCom"
-	namespaceCompletionIndex  string = "namCom"
-
-	referenceIndexCollection string = "refInd"
-	documentReferenceIndex   string = "docRefInd"
-)
-
-var /* const */ versionKey = []byte("Version")
-
-// KeySep is the separator when constructing key
-const KeySep string = "\x00"
-
-type entry struct {
-	key []byte
-	e   *storage.Encoder
-}
-
-func newEntry(collection string, key string) *entry {
-	return &entry{
-		key: []byte(collection + KeySep + key),
-		e:   storage.NewEncoder(),
-	}
-}
-
-func (s *entry) getKeyBytes() []byte {
-	return s.key
-}
-
-func (s *entry) bytes() []byte {
-	return s.e.Bytes()
-}
-
-type documentSymbol struct {
-	collection    string
-	key           string
-	indexableName string
-}
-
-func (s documentSymbol) serialise(e *storage.Encoder) {
-	e.WriteString(s.collection)
-	e.WriteString(s.key)
-	e.WriteString(s.indexableName)
-}
-
-func readDocumentSymbol(d *storage.Decoder) documentSymbol {
-	return documentSymbol{
-		collection:    d.ReadString(),
-		key:           d.ReadString(),
-		indexableName: d.ReadString(),
-	}
-}
-
-type documentNamespace struct {
-	fullName string
-}
-
-func (s documentNamespace) serialise(e *storage.Encoder) {
-	e.WriteString(s.fullName)
-}
-
-// Store contains information about a given folder and functions
-// for querying symbols
-type Store struct {
-	uri       protocol.DocumentURI
-	FS        protocol.FS
-	db        storage.DB
-	comDB     storage.DB
-	greb      *pogreb.DB
-	refIndex  *referenceIndex
-	stubbers  []stub.Stubber
-	documents cmap.ConcurrentMap
-	isClosed  bool
-
-	syncedDocumentURIs   cmap.ConcurrentMap
-	DebouncedDeprecation func(func())
-}
-
-func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool) {
-	b, err := greb.Get(e.getKeyBytes())
-	if err == nil && len(b) > 0 {
-		d := storage.NewDecoder(b)
-		count := d.ReadInt()
-		for i := 0; i < count; i++ {
-			symbol := readDocumentSymbol(d)
-			if fn(symbol) {
-				break
-			}
-		}
-	}
-	if err != nil {
-		log.Fatal(err)
-	}
-}
-
-type symbolDeletor struct {
-	uri     string
-	symbols mapset.Set[string]
-}
-
-func newSymbolDeletor(db storage.DB, greb *pogreb.DB, uri string) *symbolDeletor {
-	deletor := &symbolDeletor{
-		uri:     uri,
-		symbols: mapset.New[string](),
-	}
-	readDocumentSymbols(greb, newEntry(documentSymbolsCollection, uri), func(symbol documentSymbol) bool {
-		deletor.symbols.Put(symbol.collection + KeySep + symbol.key)
-		return false
-	})
-	return deletor
-}
-
-func (d *symbolDeletor) MarkNotDelete(ser serialisable) {
-	d.symbols.Remove(ser.GetCollection() + KeySep + ser.GetKey())
-}
-
-func (d *symbolDeletor) Delete(batch storage.Batch) {
-	d.symbols.Each(func(key string) {
-		batch.Delete([]byte(key))
-	})
-}
-
-// SearchOptions contains predicates and limiter if applicable for searching
-// symbols
-type SearchOptions struct {
-	predicates []func(s Symbol) bool
-	limiter    func() bool
-}
-
-// NewSearchOptions creates an empty search option
-func NewSearchOptions() SearchOptions {
-	return SearchOptions{}
-}
-
-// WithPredicate adds a predicate into the search option
-func (s SearchOptions) WithPredicate(predicate func(s Symbol) bool) SearchOptions {
-	s.predicates = append(s.predicates, predicate)
-	return s
-}
-
-// WithLimit adds a limiter into the search option
-func (s SearchOptions) WithLimit(limit int) SearchOptions {
-	count := 0
-	s.limiter = func() bool {
-		count++
-		return count >= limit
-	}
-	return s
-}
-
-// IsLimitReached returns true if the limitter reaches the limit
-func (s SearchOptions) IsLimitReached() bool {
-	if s.limiter == nil {
-		return false
-	}
-	return s.limiter()
-}
-
-// NewStore creates a store with the disk storage or returns an error
-// if the disk storage cannot be created
-func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
-	_, err := os.Stat(storePath)
-	if err != nil {
-		if os.IsNotExist(err) {
-			os.MkdirAll(storePath, os.ModePerm)
-		}
-	}
-	db, err := storage.NewGoLevelDB(storePath)
-	stubbers := stub.GetStubbers()
-	if err != nil {
-		return nil, err
-	}
-	comDB, err := storage.NewGoLevelDB(path.Join(storePath, "completion"))
-	if err != nil {
-		return nil, err
-	}
-	greb, err := pogreb.Open(path.Join(storePath, "pogreb"), nil)
-	if err != nil {
-		return nil, err
-	}
-	store := &Store{
-		uri:       uri,
-		FS:        fs,
-		db:        db,
-		comDB:     comDB,
-		greb:      greb,
-		refIndex:  newReferenceIndex(db),
-		stubbers:  stubbers,
-		documents: cmap.New(),
-
-		syncedDocumentURIs:   cmap.New(),
-		DebouncedDeprecation: debounce.New(2 * time.Second),
-	}
-	return store, nil
-}
-
-// Close triggers close on the fuzzy engine, and closes the disk storage
-func (s *Store) Close() {
-	if s.isClosed {
-		return
-	}
-	s.db.Close()
-	s.greb.Close()
-	s.isClosed = true
-}
-
-// GetStoreVersion returns the version of the disk storage or v0.0.0 if
-// the version is missing from the disk
-func (s *Store) GetStoreVersion() string {
-	v, err := s.db.Get(versionKey)
-	if err != nil {
-		return "v0.0.0"
-	}
-	return string(v)
-}
-
-// PutVersion stores the given version on the disk
-func (s *Store) PutVersion(version string) {
-	s.db.Put(versionKey, []byte(version))
-}
-
-// Clear triggers a disk clear
-func (s *Store) Clear() {
-	s.db.Clear()
-}
-
-// Migrate checks for defined version if it is less than
-// clears the store
-func (s *Store) Migrate(newVersion string) {
-	storeVersion := s.GetStoreVersion()
-	sv, _ := semver.NewVersion(storeVersion)
-
-	if sv == nil {
-		return
-	}
-
-	targetV, _ := semver.NewVersion("v0.0.13")
-	if sv.LessThan(targetV) {
-		log.Println("Clearing database for upgrade.")
-		s.Clear()
-		s.PutVersion(newVersion)
-	}
-}
-
-// LoadStubs loads the defined stubs, compare their hash and index them
-// if needed
-func (s *Store) LoadStubs() {
-	start := time.Now()
-	for _, stubber := range s.stubbers {
-		stubber.Walk(func(path string, data []byte) error {
-			document := NewDocument(stubber.GetURI(path), data)
-			currentMD5 := document.GetHash()
-			entry := newEntry(documentCollection, document.GetURI())
-			savedMD5, err := s.db.Get(entry.getKeyBytes())
-			if err != nil || !bytes.Equal(currentMD5, savedMD5) {
-				document.Load()
-				s.SyncDocument(document)
-			}
-			return nil
-		})
-	}
-	log.Printf("LoadStubs took %s", time.Since(start))
-}
-
-// GetOrCreateDocument checks if the store contains the given URI or
-// create a new document with the given URI
-func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
-	var document *Document
-	if value, ok := s.documents.Get(uri); !ok {
-		data, err := s.FS.ReadFile(ctx, uri)
-		if err != nil {
-			log.Printf("GetOrCreateDocument error: %v", err)
-			return nil
-		}
-		document = NewDocument(uri, data)
-		s.SaveDocOnStore(document)
-	} else {
-		document = value.(*Document)
-	}
-	return document
-}
-
-// OpenDocument loads and index the document with the given URI, at the same time
-// marks it as open to retain it on the memory
-func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("Document %s not found", uri)
-		return nil
-	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
-	document.Open()
-	document.Load()
-	s.SyncDocument(document)
-	return document
-}
-
-// CloseDocument syncs the document with the given URI and marks
-// it as close to release memory
-func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("document %s not found", uri)
-		return
-	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
-	document.Close()
-	s.SyncDocument(document)
-}
-
-// DeleteDocument deletes all symbols and indexes relating to the URI
-// this returns error if the disk cannot be written
-func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
-	err := s.db.WriteBatch(func(b storage.Batch) error {
-		ciDeletor := newCompletionIndexDeletor(s.db, uri)
-		ciDeletor.Delete(b)
-		syDeletor := newSymbolDeletor(s.db, s.greb, uri)
-		syDeletor.Delete(b)
-		s.refIndex.deleteURI(s, b, uri)
-		entry := newEntry(documentCollection, uri)
-		b.Delete(entry.getKeyBytes())
-		return nil
-	})
-	if err != nil {
-		log.Println(err)
-	}
-}
-
-// DeleteFolder searches for documents and triggers `DeleteDocument`
-func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	entry := newEntry(documentCollection, uri)
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		uri := strings.Split(string(it.Key()), KeySep)[1]
-		s.DeleteDocument(uri)
-	})
-}
-
-// CompareAndIndexDocument compares the file's hash with the stored one
-// on the disk, and if they are not matched load the document and sync.
-// The pointer to the document is returned
-func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Document {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		return nil
-	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
-
-	currentMD5 := document.GetHash()
-	savedMD5, ok := s.syncedDocumentURIs.Get(uri)
-	if ok {
-		s.syncedDocumentURIs.Remove(uri)
-	} else {
-		entry := newEntry(documentCollection, document.GetURI())
-		value, err := s.db.Get(entry.getKeyBytes())
-		if err == nil {
-			savedMD5 = value
-		}
-	}
-	if savedMD5 != nil && bytes.Equal(currentMD5, savedMD5.([]byte)) {
-		return document
-	}
-
-	document.Load()
-	s.SyncDocument(document)
-	return document
-}
-
-// SyncDocument writes all definition symbols and indexes to the disk
-// or the fuzzy engine
-func (s *Store) SyncDocument(document *Document) {
-	defer util.TimeTrack(time.Now(), "SyncDocument")
-	err := s.db.WriteBatch(func(b storage.Batch) error {
-		s.comDB.WriteBatch(func(comB storage.Batch) error {
-			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
-			syDeletor := newSymbolDeletor(s.db, s.greb, document.GetURI())
-			s.refIndex.deleteURI(s, b, document.GetURI())
-
-			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
-
-			syDeletor.Delete(b)
-			entry := newEntry(documentCollection, document.GetURI())
-			b.Put(entry.getKeyBytes(), document.GetHash())
-			return nil
-		})
-		return nil
-	})
-	if err != nil {
-		log.Print(err)
-	}
-}
-
-func (s *Store) releaseDocIfNotOpen(document *Document) {
-	if !document.IsOpen() {
-		s.documents.Remove(document.uri)
-	}
-}
-
-// SaveDocOnStore retains the document in memory
-func (s *Store) SaveDocOnStore(document *Document) {
-	s.documents.Set(document.GetURI(), document)
-}
-
-// PrepareForIndexing loads all the synced documents from the disk storage
-// into memory, this is to make sure that any deleted documents that are
-// not yet synced, get deleted
-func (s *Store) PrepareForIndexing() {
-	defer util.TimeTrack(time.Now(), "PrepareForIndexing")
-	syncedDocumentURIs := s.getSyncedDocumentURIs()
-	for key, value := range syncedDocumentURIs {
-		s.syncedDocumentURIs.Set(key, value)
-	}
-}
-
-// FinishIndexing checks for all URIs that are not removed from the map
-// and delete them, because if the file exists its URI should be removed
-// from the map
-func (s *Store) FinishIndexing() {
-	err := s.db.WriteBatch(func(wb storage.Batch) error {
-		for iter := range s.syncedDocumentURIs.IterBuffered() {
-			s.DeleteDocument(iter.Key)
-			s.syncedDocumentURIs.Remove(iter.Key)
-		}
-		return nil
-	})
-	if err != nil {
-		log.Println(err)
-	}
-}
-
-func (s *Store) getSyncedDocumentURIs() map[string][]byte {
-	documentURIs := make(map[string][]byte)
-	entry := newEntry(documentCollection, "file://")
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		documentURIs[strings.Split(string(it.Key()), KeySep)[1]] = it.Value()
-	})
-	return documentURIs
-}
-
-func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, document *Document,
-	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) {
-	var documentNamespaces []documentNamespace
-	for _, impTable := range document.importTables {
-		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
-		for index, i := range is {
-			key := namespaceKey + KeySep + strconv.Itoa(index)
-			s.indexName(comBatch, document, i, key)
-			ciDeletor.MarkNotDelete(document.GetURI(), i, key)
-		}
-	}
-	tra := newTraverser()
-	var referenceEntryInfos []entryInfo
-	var documentSymbols []documentSymbol
-	tra.traverseDocument(document, func(tra *traverser, child Symbol, _ []Symbol) {
-		if ser, ok := child.(serialisable); ok {
-			key := ser.GetKey()
-			if key == "" {
-				return
-			}
-			entry := newEntry(ser.GetCollection(), key)
-			ser.Serialise(entry.e)
-			writeEntry(batch, entry)
-			symbol := documentSymbol{
-				collection: ser.GetCollection(),
-				key:        ser.GetKey(),
-			}
-			syDeletor.MarkNotDelete(ser)
-
-			if indexable, ok := child.(NameIndexable); ok {
-				s.indexName(comBatch, document, indexable, key)
-				ciDeletor.MarkNotDelete(document.GetURI(), indexable, key)
-			}
-			documentSymbols = append(documentSymbols, symbol)
-		}
-
-		if r, ok := child.(SymbolReference); ok {
-			referenceEntryInfos = append(referenceEntryInfos, entryInfo{
-				ref: r.ReferenceFQN(),
-				r:   r.ReferenceLocation().Range,
-			})
-		}
-		if h, ok := child.(HasTypes); ok {
-			location := h.GetLocation()
-			if !stub.IsStub(location.URI) {
-				r := location.Range
-				for _, ref := range SymToRefs(document, h) {
-					referenceEntryInfos = append(referenceEntryInfos, entryInfo{
-						ref: ref,
-						r:   r,
-					})
-				}
-			}
-		}
-	})
-	s.indexDocumentSymbols(document, batch, documentSymbols)
-	s.indexDocumentNamespaces(document, batch, documentNamespaces)
-	s.refIndex.index(s, document, batch, referenceEntryInfos)
-}
-
-func (s *Store) indexDocumentSymbols(document *Document, batch storage.Batch, symbols []documentSymbol) {
-	uri := document.GetURI()
-	entry := newEntry(documentSymbolsCollection, uri)
-	entry.e.WriteInt(len(symbols))
-	for _, symbol := range symbols {
-		symbol.serialise(entry.e)
-	}
-	s.greb.Put(entry.getKeyBytes(), entry.e.Bytes())
-}
-
-func (s *Store) indexName(batch storage.Batch, document *Document, indexable NameIndexable, key string) {
-	entries := createCompletionEntries(document.GetURI(), indexable, key)
-	for _, entry := range entries {
-		writeEntry(batch, entry)
-	}
-}
-
-func (s *Store) indexDocumentNamespaces(document *Document, batch storage.Batch, namespaces []documentNamespace) {
-	uri := document.GetURI()
-	entry := newEntry(documentNamespacesCollection, uri)
-	entry.e.WriteInt(len(namespaces))
-	for _, ns := range namespaces {
-		ns.serialise(entry.e)
-	}
-	s.greb.Put(entry.getKeyBytes(), entry.e.Bytes())
-}
-
-func writeEntry(batch storage.Batch, entry *entry) {
-	batch.Put(entry.getKeyBytes(), entry.bytes())
-}
-
-// GetURI returns the store URI
-func (s *Store) GetURI() protocol.DocumentURI {
-	return s.uri
-}
-
-// IsSymbolValid returns true if the given symbol matches all predicates of the given options
-func isSymbolValid(symbol Symbol, options SearchOptions) bool {
-	if len(options.predicates) == 0 {
-		return true
-	}
-	allTrue := true
-	for _, predicate := range options.predicates {
-		if !predicate(symbol) {
-			allTrue = false
-			break
-		}
-	}
-	return allTrue
-}
-
-func namespacePredicate(scope string) func(s Symbol) bool {
-	if scope == "" {
-		return func(s Symbol) bool {
-			return true
-		}
-	}
-	return func(s Symbol) bool {
-		symbolScope := ""
-		if v, ok := s.(HasScope); ok {
-			symbolScope = v.GetScope()
-		}
-		return symbolScope == scope
-	}
-}
-
-// SearchNamespaces searches namespaces with the given keyword, and keyword can contain
-// a namespace scope, e.g. Namespace1\NestedNams
-func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]string, SearchResult) {
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	// In namespace normally there isn't \ but somehow it has ignores in because
-	// namespaces are not indexed with \
-	if scope == "\\" {
-		scope = ""
-	}
-	namespaces := []string{}
-	collection := namespaceCompletionIndex
-	if len(scope) != 0 {
-		collection += KeySep + scope
-	}
-	query := searchQuery{
-		collection: collection,
-		keyword:    keyword,
-		onData: func(cv CompletionValue) onDataResult {
-			parts := strings.Split(string(cv), KeySep)
-			namespaces = append(namespaces, parts[0])
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return namespaces, result
-}
-
-// GetClasses searches all classes with the given name
-func (s *Store) GetClasses(name string) []*Class {
-	entry := newEntry(classCollection, name+KeySep)
-	classes := []*Class{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		classes = append(classes, ReadClass(d))
-	})
-	return classes
-}
-
-func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onDataResult) {
-	if scope[len(scope)-1] != '\\' {
-		scope += "\\"
-	}
-	entry := newEntry(classCollection, scope)
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		class := ReadClass(storage.NewDecoder(it.Value()))
-		result := onData(class)
-		if result.shouldStop {
-			it.Stop()
-		}
-	})
-}
-
-// SearchClasses uses the completion index to search for classes with the given keyword.
-// `keyword` can contain scope \Namespace1\Cl
-func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	classes := []*Class{}
-	if scope != "" {
-		if keyword != "" {
-			options = options.WithPredicate(func(s Symbol) bool {
-				if v, ok := s.(*Class); ok {
-					return strings.Contains(v.Name.GetOriginal(), keyword)
-				}
-				return false
-			})
-		}
-		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
-			if isSymbolValid(class, options) {
-				classes = append(classes, class)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		})
-		return classes, SearchResult{true}
-	}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
-	query := searchQuery{
-		collection: classCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(classCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			if len(value) == 0 {
-				log.Printf("Empty class: %v", strings.Split(string(completionValue), KeySep))
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			class := ReadClass(d)
-			if isSymbolValid(class, options) {
-				classes = append(classes, class)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return classes, result
-}
-
-// GetInterfaces searches all the interfaces with the given name from the disk storage
-func (s *Store) GetInterfaces(name string) []*Interface {
-	entry := newEntry(interfaceCollection, name+KeySep)
-	interfaces := []*Interface{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		interfaces = append(interfaces, ReadInterface(d))
-	})
-	return interfaces
-}
-
-// SearchInterfaces uses completion index to search for interfaces with the given keyword.
-// `keyword` can contain scope \Namespace1\Cl
-func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Interface, SearchResult) {
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	interfaces := []*Interface{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
-	query := searchQuery{
-		collection: interfaceCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(interfaceCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			theInterface := ReadInterface(d)
-			if isSymbolValid(theInterface, options) {
-				interfaces = append(interfaces, theInterface)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return interfaces, result
-}
-
-// GetTraits searches for all the traits with the given name from the disk storage
-func (s *Store) GetTraits(name string) []*Trait {
-	entry := newEntry(traitCollection, name+KeySep)
-	traits := []*Trait{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		traits = append(traits, ReadTrait(d))
-	})
-	return traits
-}
-
-// SearchTraits uses completion index to search traits matching the given keyword.
-// `keyword` can contain scope
-func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, SearchResult) {
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	traits := []*Trait{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
-	query := searchQuery{
-		collection: traitCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(traitCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			trait := ReadTrait(d)
-			if isSymbolValid(trait, options) {
-				traits = append(traits, trait)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return traits, result
-}
-
-// GetFunctions searches all functions with the given name from the disk storage
-func (s *Store) GetFunctions(name string) []*Function {
-	entry := newEntry(functionCollection, name+KeySep)
-	functions := []*Function{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		functions = append(functions, ReadFunction(d))
-	})
-	return functions
-}
-
-// SearchFunctions uses the completion index to search functions matching the given keyword.
-// `keyword` can contain scope
-func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Function, SearchResult) {
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	functions := []*Function{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
-	query := searchQuery{
-		collection: functionCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(functionCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			if len(value) == 0 {
-				log.Printf("Empty function: %v", strings.Split(string(completionValue), KeySep))
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			function := ReadFunction(d)
-			if isSymbolValid(function, options) {
-				functions = append(functions, function)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return functions, result
-}
-
-// GetConsts searches all the consts with the given name from the disk storage
-func (s *Store) GetConsts(name string) []*Const {
-	entry := newEntry(constCollection, name+KeySep)
-	consts := []*Const{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		consts = append(consts, ReadConst(d))
-	})
-	return consts
-}
-
-// SearchConsts uses completion index to search constants matching the given keyword
-func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
-	consts := []*Const{}
-	query := searchQuery{
-		collection: constCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(constCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			constant := ReadConst(d)
-			if isSymbolValid(constant, options) {
-				consts = append(consts, constant)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return consts, result
-}
-
-// GetDefines searches all `define()` with the given name from the disk storage
-func (s *Store) GetDefines(name string) []*Define {
-	entry := newEntry(defineCollection, name+KeySep)
-	defines := []*Define{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		defines = append(defines, ReadDefine(d))
-	})
-	return defines
-}
-
-// SearchDefines uses completion index to search `define()`s matching the given keyword
-func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
-	defines := []*Define{}
-	query := searchQuery{
-		collection: defineCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(defineCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			define := ReadDefine(d)
-			if isSymbolValid(define, options) {
-				defines = append(defines, define)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return defines, result
-}
-
-// GetMethods searches for all methods with the same scope and name as given
-func (s *Store) GetMethods(scope string, name string) []*Method {
-	entry := newEntry(methodCollection, scope+KeySep+strings.ToLower(name)+KeySep)
-	methods := []*Method{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		methods = append(methods, ReadMethod(d))
-	})
-	return methods
-}
-
-// GetAllMethods returns all the methods with the given scope.
-// This function can be faster than `SearchMethods` for searching only methods
-// under given scope, because this only scans methods which have the given scope
-func (s *Store) GetAllMethods(scope string) []*Method {
-	entry := newEntry(methodCollection, scope+KeySep)
-	methods := []*Method{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		methods = append(methods, ReadMethod(d))
-	})
-	return methods
-}
-
-// SearchMethods uses completion index to search methods matching the given scope and keyword.
-// This function is slow and should only be used for searching method store-wide, because the completion
-// index will scan through all the methods in the store and compare its scope.
-// If the scope is "" all methods matching will be returned.
-func (s *Store) SearchMethods(scope string, keyword string, options SearchOptions) ([]*Method, SearchResult) {
-	if keyword == "" {
-		return []*Method{}, SearchResult{false}
-	}
-
-	methods := []*Method{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
-	query := searchQuery{
-		collection: methodCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(methodCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			if len(value) == 0 {
-				log.Printf("Empty methods: scope %s, %v", scope, strings.Split(string(completionValue), KeySep))
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			method := ReadMethod(d)
-			if isSymbolValid(method, options) {
-				methods = append(methods, method)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return methods, result
-}
-
-// GetClassConsts searches all class constants with the given scope and name from the disk
-// storage.
-// The word class is used loosely in here which means it can be interfaces/traits
-func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
-	entry := newEntry(classConstCollection, scope+KeySep+name)
-	classConsts := []*ClassConst{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		classConsts = append(classConsts, ReadClassConst(d))
-	})
-	return classConsts
-}
-
-// GetAllClassConsts returns all the class constants under the given scope.
-// The word class is used loosely in here, which means it can be classes/interfaces/traits
-func (s *Store) GetAllClassConsts(scope string) []*ClassConst {
-	entry := newEntry(classConstCollection, scope+KeySep)
-	classConsts := []*ClassConst{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		classConsts = append(classConsts, ReadClassConst(d))
-	})
-	return classConsts
-}
-
-// SearchClassConsts uses completion index to search class constants matching the
-// given scope and keyword.
-// If the scope is empty all matched class constants are returned.
-// The word class is used loosely in here, which means it can be classes/interfaces/traits
-func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOptions) ([]*ClassConst, SearchResult) {
-	if keyword == "" {
-		return s.GetAllClassConsts(scope), SearchResult{true}
-	}
-
-	classConsts := []*ClassConst{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
-	query := searchQuery{
-		collection: classConstCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(classConstCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			classConst := ReadClassConst(d)
-			if isSymbolValid(classConst, options) {
-				classConsts = append(classConsts, classConst)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return classConsts, result
-}
-
-// GetProperties searches all properties with the given scope and name from the disk storage
-func (s *Store) GetProperties(scope string, name string) []*Property {
-	entry := newEntry(propertyCollection, scope+KeySep+name+KeySep)
-	properties := []*Property{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		properties = append(properties, ReadProperty(d))
-	})
-	return properties
-}
-
-// GetAllProperties searches all properties with the given scope from the disk storage
-func (s *Store) GetAllProperties(scope string) []*Property {
-	entry := newEntry(propertyCollection, scope+KeySep)
-	properties := []*Property{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		properties = append(properties, ReadProperty(d))
-	})
-	return properties
-}
-
-// SearchProperties uses completion index to search properties matching the given scope
-// and name. If the scope is "", this will forward to `GetAllProperties`, and ignore keyword
-func (s *Store) SearchProperties(scope string, keyword string, options SearchOptions) ([]*Property, SearchResult) {
-	if keyword == "" {
-		return s.GetAllProperties(scope), SearchResult{true}
-	}
-
-	properties := []*Property{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
-	query := searchQuery{
-		collection: propertyCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(propertyCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			property := ReadProperty(d)
-			if isSymbolValid(property, options) {
-				properties = append(properties, property)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return properties, result
-}
-
-// GetGlobalVariables searches all global variables with the given name from the disk storage
-func (s *Store) GetGlobalVariables(name string) []*GlobalVariable {
-	entry := newEntry(globalVariableCollection, name+KeySep)
-	results := []*GlobalVariable{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		results = append(results, ReadGlobalVariable(d))
-	})
-	return results
-}
-
-// GetReferences returns the locations of the reference to an FQN
-func (s *Store) GetReferences(ref string) []protocol.Location {
-	return s.refIndex.search(s, ref)
-}
-
-// SymToRefs converts a HasTypes symbol to reference strings
-func SymToRefs(document *Document, sym HasTypes) []string {
-	var refs []string
-	switch v := sym.(type) {
-	case *FunctionCall:
-		possibleFQNs := document.ImportTableAtPos(sym.GetLocation().Range.Start).FunctionPossibleFQNs(NewTypeString(v.Name))
-		for _, fqn := range possibleFQNs {
-			sb := &strings.Builder{}
-			sb.WriteString(fqn)
-			sb.WriteString("()")
-			refs = append(refs, sb.String())
-		}
-	case *ClassTypeDesignator, *TypeDeclaration, *ClassAccess, *TraitAccess, *InterfaceAccess:
-		if c, ok := sym.(*ClassAccess); ok && IsNameRelative(c.Name) {
-			break
-		}
-		for _, t := range sym.GetTypes().Resolve() {
-			refs = append(refs, t.GetFQN())
-		}
-	case HasTypesHasScope:
-		sb := &strings.Builder{}
-		sb.WriteString(".")
-		sb.WriteString(v.MemberName())
-		refs = append(refs, sb.String())
-	}
-	return refs
-}
+package analysis
+
+import (
+	"bytes"
+	"context"
+	"log"
+	"os"
+	"path"
+	"strconv"
+	"strings"
+	"time"
+
+	"github.com/Masterminds/semver"
+	"github.com/bep/debounce"
+	"github.com/john-nguyen09/phpintel/analysis/storage"
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/stub"
+	"github.com/john-nguyen09/phpintel/util"
+	"github.com/john-nguyen09/pogreb"
+	cmap "github.com/orcaman/concurrent-map"
+	"github.com/zyedidia/generic/mapset"
+)
+
+const (
+	documentSymbolsCollection    string = "docSym"
+	classCollection              string = "cla"
+	interfaceCollection          string = "int"
+	traitCollection              string = "tra"
+	functionCollection           string = "fun"
+	constCollection              string = "con"
+	defineCollection             string = "def"
+	methodCollection             string = "met"
+	classConstCollection         string = "claCon"
+	propertyCollection           string = "pro"
+	globalVariableCollection     string = "gloVar"
+	documentCollection           string = "doc"
+	documentNamespacesCollection string = "docNs"
+
+	documentCompletionIndex   string = "docCom"
+	completionDataCollection  string = "comDatCol"
+	functionCompletionIndex   string = "funCom"
+	constCompletionIndex      string = "conCom"
+	defineCompletionIndex     string = "defCom"
+	classCompletionIndex      string = "claCom"
+	interfaceCompletionIndex  string = "intCom"
+	traitCompletionIndex      string = "traCom"
+	methodCompletionIndex     string = "metCom"
+	propertyCompletionIndex   string = "proCom"
+	classConstCompletionIndex string = "claConCom"
+	namespaceCompletionIndex  string = "namCom"
+
+	referenceIndexCollection string = "refInd"
+	documentReferenceIndex   string = "docRefInd"
+)
+
+var /* const */ versionKey = []byte("Version")
+
+// KeySep is the separator when constructing key
+const KeySep string = "\x00"
+
+type entry struct {
+	key []byte
+	e   *storage.Encoder
+}
+
+func newEntry(collection string, key string) *entry {
+	return &entry{
+		key: []byte(collection + KeySep + key),
+		e:   storage.NewEncoder(),
+	}
+}
+
+func (s *entry) getKeyBytes() []byte {
+	return s.key
+}
+
+func (s *entry) bytes() []byte {
+	return s.e.Bytes()
+}
+
+type documentSymbol struct {
+	collection    string
+	key           string
+	indexableName string
+}
+
+func (s documentSymbol) serialise(e *storage.Encoder) {
+	e.WriteString(s.collection)
+	e.WriteString(s.key)
+	e.WriteString(s.indexableName)
+}
+
+func readDocumentSymbol(d *storage.Decoder) documentSymbol {
+	return documentSymbol{
+		collection:    d.ReadString(),
+		key:           d.ReadString(),
+		indexableName: d.ReadString(),
+	}
+}
+
+type documentNamespace struct {
+	fullName string
+}
+
+func (s documentNamespace) serialise(e *storage.Encoder) {
+	e.WriteString(s.fullName)
+}
+
+// Store contains information about a given folder and functions
+// for querying symbols
+type Store struct {
+	uri       protocol.DocumentURI
+	FS        protocol.FS
+	db        storage.DB
+	comDB     storage.DB
+	greb      *pogreb.DB
+	refIndex  *referenceIndex
+	stubbers  []stub.Stubber
+	documents cmap.ConcurrentMap
+	isClosed  bool
+
+	syncedDocumentURIs   cmap.ConcurrentMap
+	DebouncedDeprecation func(func())
+}
+
+func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool) {
+	b, err := greb.Get(e.getKeyBytes())
+	if err == nil && len(b) > 0 {
+		d := storage.NewDecoder(b)
+		count := d.ReadInt()
+		for i := 0; i < count; i++ {
+			symbol := readDocumentSymbol(d)
+			if fn(symbol) {
+				break
+			}
+		}
+	}
+	if err != nil {
+		log.Fatal(err)
+	}
+}
+
+type symbolDeletor struct {
+	uri     string
+	symbols mapset.Set[string]
+}
+
+func newSymbolDeletor(db storage.DB, greb *pogreb.DB, uri string) *symbolDeletor {
+	deletor := &symbolDeletor{
+		uri:     uri,
+		symbols: mapset.New[string](),
+	}
+	readDocumentSymbols(greb, newEntry(documentSymbolsCollection, uri), func(symbol documentSymbol) bool {
+		deletor.symbols.Put(symbol.collection + KeySep + symbol.key)
+		return false
+	})
+	return deletor
+}
+
+func (d *symbolDeletor) MarkNotDelete(ser serialisable) {
+	d.symbols.Remove(ser.GetCollection() + KeySep + ser.GetKey())
+}
+
+func (d *symbolDeletor) Delete(batch storage.Batch) {
+	d.symbols.Each(func(key string) {
+		batch.Delete([]byte(key))
+	})
+}
+
+// SearchOptions contains predicates and limiter if applicable for searching
+// symbols
+type SearchOptions struct {
+	predicates []func(s Symbol) bool
+	limiter    func() bool
+}
+
+// NewSearchOptions creates an empty search option
+func NewSearchOptions() SearchOptions {
+	return SearchOptions{}
+}
+
+// WithPredicate adds a predicate into the search option
+func (s SearchOptions) WithPredicate(predicate func(s Symbol) bool) SearchOptions {
+	s.predicates = append(s.predicates, predicate)
+	return s
+}
+
+// WithLimit adds a limiter into the search option
+func (s SearchOptions) WithLimit(limit int) SearchOptions {
+	count := 0
+	s.limiter = func() bool {
+		count++
+		return count >= limit
+	}
+	return s
+}
+
+// IsLimitReached returns true if the limitter reaches the limit
+func (s SearchOptions) IsLimitReached() bool {
+	if s.limiter == nil {
+		return false
+	}
+	return s.limiter()
+}
+
+// NewStore creates a store with the disk storage or returns an error
+// if the disk storage cannot be created
+func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
+	_, err := os.Stat(storePath)
+	if err != nil {
+		if os.IsNotExist(err) {
+			os.MkdirAll(storePath, os.ModePerm)
+		}
+	}
+	db, err := storage.NewGoLevelDB(storePath)
+	stubbers := stub.GetStubbers()
+	if err != nil {
+		return nil, err
+	}
+	comDB, err := storage.NewGoLevelDB(path.Join(storePath, "completion"))
+	if err != nil {
+		return nil, err
+	}
+	greb, err := pogreb.Open(path.Join(storePath, "pogreb"), nil)
+	if err != nil {
+		return nil, err
+	}
+	store := &Store{
+		uri:       uri,
+		FS:        fs,
+		db:        db,
+		comDB:     comDB,
+		greb:      greb,
+		refIndex:  newReferenceIndex(db),
+		stubbers:  stubbers,
+		documents: cmap.New(),
+
+		syncedDocumentURIs:   cmap.New(),
+		DebouncedDeprecation: debounce.New(2 * time.Second),
+	}
+	return store, nil
+}
+
+// Close triggers close on the fuzzy engine, and closes the disk storage
+func (s *Store) Close() {
+	if s.isClosed {
+		return
+	}
+	s.db.Close()
+	s.greb.Close()
+	s.isClosed = true
+}
+
+// GetStoreVersion returns the version of the disk storage or v0.0.0 if
+// the version is missing from the disk
+func (s *Store) GetStoreVersion() string {
+	v, err := s.db.Get(versionKey)
+	if err != nil {
+		return "v0.0.0"
+	}
+	return string(v)
+}
+
+// PutVersion stores the given version on the disk
+func (s *Store) PutVersion(version string) {
+	s.db.Put(versionKey, []byte(version))
+}
+
+// Clear triggers a disk clear
+func (s *Store) Clear() {
+	s.db.Clear()
+}
+
+// Migrate checks for defined version if it is less than
+// clears the store
+func (s *Store) Migrate(newVersion string) {
+	storeVersion := s.GetStoreVersion()
+	sv, _ := semver.NewVersion(storeVersion)
+
+	if sv == nil {
+		return
+	}
+
+	targetV, _ := semver.NewVersion("v0.0.13")
+	if sv.LessThan(targetV) {
+		log.Println("Clearing database for upgrade.")
+		s.Clear()
+		s.PutVersion(newVersion)
+	}
+}
+
+// LoadStubs loads the defined stubs, compare their hash and index them
+// if needed
+func (s *Store) LoadStubs() {
+	start := time.Now()
+	for _, stubber := range s.stubbers {
+		stubber.Walk(func(path string, data []byte) error {
+			document := NewDocument(stubber.GetURI(path), data)
+			currentMD5 := document.GetHash()
+			entry := newEntry(documentCollection, document.GetURI())
+			savedMD5, err := s.db.Get(entry.getKeyBytes())
+			if err != nil || !bytes.Equal(currentMD5, savedMD5) {
+				document.Load()
+				s.SyncDocument(document)
+			}
+			return nil
+		})
+	}
+	log.Printf("LoadStubs took %s", time.Since(start))
+}
+
+// GetOrCreateDocument checks if the store contains the given URI or
+// create a new document with the given URI
+func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
+	var document *Document
+	if value, ok := s.documents.Get(uri); !ok {
+		data, err := s.FS.ReadFile(ctx, uri)
+		if err != nil {
+			log.Printf("GetOrCreateDocument error: %v", err)
+			return nil
+		}
+		document = NewDocument(uri, data)
+		s.SaveDocOnStore(document)
+	} else {
+		document = value.(*Document)
+	}
+	return document
+}
+
+// OpenDocument loads and index the document with the given URI, at the same time
+// marks it as open to retain it on the memory
+func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
+	document := s.GetOrCreateDocument(ctx, uri)
+	if document == nil {
+		log.Printf("Document %s not found", uri)
+		return nil
+	}
+	document.Lock()
+	defer func() {
+		document.Unlock()
+		s.releaseDocIfNotOpen(document)
+	}()
+	document.Open()
+	document.Load()
+	s.SyncDocument(document)
+	return document
+}
+
+// CloseDocument syncs the document with the given URI and marks
+// it as close to release memory
+func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
+	document := s.GetOrCreateDocument(ctx, uri)
+	if document == nil {
+		log.Printf("document %s not found", uri)
+		return
+	}
+	document.Lock()
+	defer func() {
+		document.Unlock()
+		s.releaseDocIfNotOpen(document)
+	}()
+	document.Close()
+	s.SyncDocument(document)
+}
+
+// DeleteDocument deletes all symbols and indexes relating to the URI
+// this returns error if the disk cannot be written
+func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
+	err := s.db.WriteBatch(func(b storage.Batch) error {
+		err := s.comDB.WriteBatch(func(comB storage.Batch) error {
+			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+			ciDeletor.Delete(comB)
+			return nil
+		})
+		if err != nil {
+			return err
+		}
+		syDeletor := newSymbolDeletor(s.db, s.greb, uri)
+		syDeletor.Delete(b)
+		s.refIndex.deleteURI(s, b, uri)
+		entry := newEntry(documentCollection, uri)
+		b.Delete(entry.getKeyBytes())
+		return nil
+	})
+	if err != nil {
+		log.Println(err)
+	}
+}
+
+// DeleteFolder searches for documents and triggers `DeleteDocument`
+func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
+	entry := newEntry(documentCollection, uri)
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		uri := strings.Split(string(it.Key()), KeySep)[1]
+		s.DeleteDocument(uri)
+	})
+}
+
+// CompareAndIndexDocument compares the file's hash with the stored one
+// on the disk, and if they are not matched load the document and sync.
+// The pointer to the document is returned
+func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Document {
+	document := s.GetOrCreateDocument(ctx, uri)
+	if document == nil {
+		return nil
+	}
+	document.Lock()
+	defer func() {
+		document.Unlock()
+		s.releaseDocIfNotOpen(document)
+	}()
+
+	currentMD5 := document.GetHash()
+	savedMD5, ok := s.syncedDocumentURIs.Get(uri)
+	if ok {
+		s.syncedDocumentURIs.Remove(uri)
+	} else {
+		entry := newEntry(documentCollection, document.GetURI())
+		value, err := s.db.Get(entry.getKeyBytes())
+		if err == nil {
+			savedMD5 = value
+		}
+	}
+	if savedMD5 != nil && bytes.Equal(currentMD5, savedMD5.([]byte)) {
+		return document
+	}
+
+	document.Load()
+	s.SyncDocument(document)
+	return document
+}
+
+// SyncDocument writes all definition symbols and indexes to the disk
+// or the fuzzy engine
+func (s *Store) SyncDocument(document *Document) {
+	defer util.TimeTrack(time.Now(), "SyncDocument")
+	err := s.db.WriteBatch(func(b storage.Batch) error {
+		s.comDB.WriteBatch(func(comB storage.Batch) error {
+			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
+			syDeletor := newSymbolDeletor(s.db, s.greb, document.GetURI())
+			s.refIndex.deleteURI(s, b, document.GetURI())
+
+			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
+
+			ciDeletor.Delete(comB)
+			syDeletor.Delete(b)
+			entry := newEntry(documentCollection, document.GetURI())
+			b.Put(entry.getKeyBytes(), document.GetHash())
+			return nil
+		})
+		return nil
+	})
+	if err != nil {
+		log.Print(err)
+	}
+}
+
+func (s *Store) releaseDocIfNotOpen(document *Document) {
+	if !document.IsOpen() {
+		s.documents.Remove(document.uri)
+	}
+}
+
+// SaveDocOnStore retains the document in memory
+func (s *Store) SaveDocOnStore(document *Document) {
+	s.documents.Set(document.GetURI(), document)
+}
+
+// PrepareForIndexing loads all the synced documents from the disk storage
+// into memory, this is to make sure that any deleted documents that are
+// not yet synced, get deleted
+func (s *Store) PrepareForIndexing() {
+	defer util.TimeTrack(time.Now(), "PrepareForIndexing")
+	syncedDocumentURIs := s.getSyncedDocumentURIs()
+	for key, value := range syncedDocumentURIs {
+		s.syncedDocumentURIs.Set(key, value)
+	}
+}
+
+// FinishIndexing checks for all URIs that are not removed from the map
+// and delete them, because if the file exists its URI should be removed
+// from the map
+func (s *Store) FinishIndexing() {
+	err := s.db.WriteBatch(func(wb storage.Batch) error {
+		for iter := range s.syncedDocumentURIs.IterBuffered() {
+			s.DeleteDocument(iter.Key)
+			s.syncedDocumentURIs.Remove(iter.Key)
+		}
+		return nil
+	})
+	if err != nil {
+		log.Println(err)
+	}
+}
+
+func (s *Store) getSyncedDocumentURIs() map[string][]byte {
+	documentURIs := make(map[string][]byte)
+	entry := newEntry(documentCollection, "file://")
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		documentURIs[strings.Split(string(it.Key()), KeySep)[1]] = it.Value()
+	})
+	return documentURIs
+}
+
+func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, document *Document,
+	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) {
+	var documentNamespaces []documentNamespace
+	for _, impTable := range document.importTables {
+		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
+		for index, i := range is {
+			key := namespaceKey + KeySep + strconv.Itoa(index) + KeySep + document.GetURI()
+			s.indexName(comBatch, document, i, key)
+			ciDeletor.MarkNotDelete(document.GetURI(), i, key)
+		}
+	}
+	tra := newTraverser()
+	var referenceEntryInfos []entryInfo
+	var documentSymbols []documentSymbol
+	tra.traverseDocument(document, func(tra *traverser, child Symbol, _ []Symbol) {
+		if ser, ok := child.(serialisable); ok {
+			key := ser.GetKey()
+			if key == "" {
+				return
+			}
+			entry := newEntry(ser.GetCollection(), key)
+			ser.Serialise(entry.e)
+			writeEntry(batch, entry)
+			symbol := documentSymbol{
+				collection: ser.GetCollection(),
+				key:        ser.GetKey(),
+			}
+			syDeletor.MarkNotDelete(ser)
+
+			if indexable, ok := child.(NameIndexable); ok {
+				s.indexName(comBatch, document, indexable, key)
+				ciDeletor.MarkNotDelete(document.GetURI(), indexable, key)
+			}
+			documentSymbols = append(documentSymbols, symbol)
+		}
+
+		if r, ok := child.(SymbolReference); ok {
+			referenceEntryInfos = append(referenceEntryInfos, entryInfo{
+				ref: r.ReferenceFQN(),
+				r:   r.ReferenceLocation().Range,
+			})
+		}
+		if h, ok := child.(HasTypes); ok {
+			location := h.GetLocation()
+			if !stub.IsStub(location.URI) {
+				r := location.Range
+				for _, ref := range SymToRefs(document, h) {
+					referenceEntryInfos = append(referenceEntryInfos, entryInfo{
+						ref: ref,
+						r:   r,
+					})
+				}
+			}
+		}
+	})
+	s.indexDocumentSymbols(document, batch, documentSymbols)
+	s.indexDocumentNamespaces(document, batch, documentNamespaces)
+	s.refIndex.index(s, document, batch, referenceEntryInfos)
+}
+
+func (s *Store) indexDocumentSymbols(document *Document, batch storage.Batch, symbols []documentSymbol) {
+	uri := document.GetURI()
+	entry := newEntry(documentSymbolsCollection, uri)
+	entry.e.WriteInt(len(symbols))
+	for _, symbol := range symbols {
+		symbol.serialise(entry.e)
+	}
+	s.greb.Put(entry.getKeyBytes(), entry.e.Bytes())
+}
+
+func (s *Store) indexName(batch storage.Batch, document *Document, indexable NameIndexable, key string) {
+	entries := createCompletionEntries(document.GetURI(), indexable, key)
+	for _, entry := range entries {
+		writeEntry(batch, entry)
+	}
+}
+
+func (s *Store) indexDocumentNamespaces(document *Document, batch storage.Batch, namespaces []documentNamespace) {
+	uri := document.GetURI()
+	entry := newEntry(documentNamespacesCollection, uri)
+	entry.e.WriteInt(len(namespaces))
+	for _, ns := range namespaces {
+		ns.serialise(entry.e)
+	}
+	s.greb.Put(entry.getKeyBytes(), entry.e.Bytes())
+}
+
+func writeEntry(batch storage.Batch, entry *entry) {
+	batch.Put(entry.getKeyBytes(), entry.bytes())
+}
+
+// GetURI returns the store URI
+func (s *Store) GetURI() protocol.DocumentURI {
+	return s.uri
+}
+
+// IsSymbolValid returns true if the given symbol matches all predicates of the given options
+func isSymbolValid(symbol Symbol, options SearchOptions) bool {
+	if len(options.predicates) == 0 {
+		return true
+	}
+	allTrue := true
+	for _, predicate := range options.predicates {
+		if !predicate(symbol) {
+			allTrue = false
+			break
+		}
+	}
+	return allTrue
+}
+
+func namespacePredicate(scope string) func(s Symbol) bool {
+	if scope == "" {
+		return func(s Symbol) bool {
+			return true
+		}
+	}
+	return func(s Symbol) bool {
+		symbolScope := ""
+		if v, ok := s.(HasScope); ok {
+			symbolScope = v.GetScope()
+		}
+		return symbolScope == scope
+	}
+}
+
+// SearchNamespaces searches namespaces with the given keyword, and keyword can contain
+// a namespace scope, e.g. Namespace1\NestedNams
+func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]string, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	// In namespace normally there isn't \ but somehow it has ignores in because
+	// namespaces are not indexed with \
+	if scope == "\\" {
+		scope = ""
+	}
+	namespaces := []string{}
+	unique := mapset.New[string]()
+	collection := namespaceCompletionIndex
+	if len(scope) != 0 {
+		collection += KeySep + scope
+	}
+	query := searchQuery{
+		collection: collection,
+		keyword:    keyword,
+		onData: func(cv CompletionValue) onDataResult {
+			// A namespace is indexed once for each document declaring it
+			namespace := strings.Split(string(cv), KeySep)[0]
+			if !unique.Has(namespace) {
+				unique.Put(namespace)
+				namespaces = append(namespaces, namespace)
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return namespaces, result
+}
+
+// GetClasses searches all classes with the given name
+func (s *Store) GetClasses(name string) []*Class {
+	entry := newEntry(classCollection, name+KeySep)
+	classes := []*Class{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		classes = append(classes, ReadClass(d))
+	})
+	return classes
+}
+
+func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onDataResult) {
+	if scope[len(scope)-1] != '\\' {
+		scope += "\\"
+	}
+	entry := newEntry(classCollection, scope)
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		class := ReadClass(storage.NewDecoder(it.Value()))
+		result := onData(class)
+		if result.shouldStop {
+			it.Stop()
+		}
+	})
+}
+
+// SearchClasses uses the completion index to search for classes with the given keyword.
+// `keyword` can contain scope \Namespace1\Cl
+func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	classes := []*Class{}
+	if scope != "" {
+		if keyword != "" {
+			options = options.WithPredicate(func(s Symbol) bool {
+				if v, ok := s.(*Class); ok {
+					return strings.Contains(v.Name.GetOriginal(), keyword)
+				}
+				return false
+			})
+		}
+		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
+			if isSymbolValid(class, options) {
+				classes = append(classes, class)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		})
+		return classes, SearchResult{true}
+	}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
+	query := searchQuery{
+		collection: classCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(classCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			if len(value) == 0 {
+				log.Printf("Empty class: %v", strings.Split(string(completionValue), KeySep))
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			class := ReadClass(d)
+			if isSymbolValid(class, options) {
+				classes = append(classes, class)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return classes, result
+}
+
+// GetInterfaces searches all the interfaces with the given name from the disk storage
+func (s *Store) GetInterfaces(name string) []*Interface {
+	entry := newEntry(interfaceCollection, name+KeySep)
+	interfaces := []*Interface{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		interfaces = append(interfaces, ReadInterface(d))
+	})
+	return interfaces
+}
+
+// SearchInterfaces uses completion index to search for interfaces with the given keyword.
+// `keyword` can contain scope \Namespace1\Cl
+func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Interface, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	interfaces := []*Interface{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
+	query := searchQuery{
+		collection: interfaceCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(interfaceCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			theInterface := ReadInterface(d)
+			if isSymbolValid(theInterface, options) {
+				interfaces = append(interfaces, theInterface)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return interfaces, result
+}
+
+// GetTraits searches for all the traits with the given name from the disk storage
+func (s *Store) GetTraits(name string) []*Trait {
+	entry := newEntry(traitCollection, name+KeySep)
+	traits := []*Trait{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		traits = append(traits, ReadTrait(d))
+	})
+	return traits
+}
+
+// SearchTraits uses completion index to search traits matching the given keyword.
+// `keyword` can contain scope
+func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	traits := []*Trait{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
+	query := searchQuery{
+		collection: traitCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(traitCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			trait := ReadTrait(d)
+			if isSymbolValid(trait, options) {
+				traits = append(traits, trait)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return traits, result
+}
+
+// GetFunctions searches all functions with the given name from the disk storage
+func (s *Store) GetFunctions(name string) []*Function {
+	entry := newEntry(functionCollection, name+KeySep)
+	functions := []*Function{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		functions = append(functions, ReadFunction(d))
+	})
+	return functions
+}
+
+// SearchFunctions uses the completion index to search functions matching the given keyword.
+// `keyword` can contain scope
+func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Function, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	functions := []*Function{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
+	query := searchQuery{
+		collection: functionCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(functionCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			if len(value) == 0 {
+				log.Printf("Empty function: %v", strings.Split(string(completionValue), KeySep))
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			function := ReadFunction(d)
+			if isSymbolValid(function, options) {
+				functions = append(functions, function)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return functions, result
+}
+
+// GetConsts searches all the consts with the given name from the disk storage
+func (s *Store) GetConsts(name string) []*Const {
+	entry := newEntry(constCollection, name+KeySep)
+	consts := []*Const{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		consts = append(consts, ReadConst(d))
+	})
+	return consts
+}
+
+// SearchConsts uses completion index to search constants matching the given keyword
+func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
+	consts := []*Const{}
+	query := searchQuery{
+		collection: constCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(constCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			constant := ReadConst(d)
+			if isSymbolValid(constant, options) {
+				consts = append(consts, constant)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return consts, result
+}
+
+// GetDefines searches all `define()` with the given name from the disk storage
+func (s *Store) GetDefines(name string) []*Define {
+	entry := newEntry(defineCollection, name+KeySep)
+	defines := []*Define{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		defines = append(defines, ReadDefine(d))
+	})
+	return defines
+}
+
+// SearchDefines uses completion index to search `define()`s matching the given keyword
+func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
+	defines := []*Define{}
+	query := searchQuery{
+		collection: defineCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(defineCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			define := ReadDefine(d)
+			if isSymbolValid(define, options) {
+				defines = append(defines, define)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return defines, result
+}
+
+// GetMethods searches for all methods with the same scope and name as given
+func (s *Store) GetMethods(scope string, name string) []*Method {
+	entry := newEntry(methodCollection, scope+KeySep+strings.ToLower(name)+KeySep)
+	methods := []*Method{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		methods = append(methods, ReadMethod(d))
+	})
+	return methods
+}
+
+// GetAllMethods returns all the methods with the given scope.
+// This function can be faster than `SearchMethods` for searching only methods
+// under given scope, because this only scans methods which have the given scope
+func (s *Store) GetAllMethods(scope string) []*Method {
+	entry := newEntry(methodCollection, scope+KeySep)
+	methods := []*Method{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		methods = append(methods, ReadMethod(d))
+	})
+	return methods
+}
+
+// SearchMethods uses completion index to search methods matching the given scope and keyword.
+// This function is slow and should only be used for searching method store-wide, because the completion
+// index will scan through all the methods in the store and compare its scope.
+// If the scope is "" all methods matching will be returned.
+func (s *Store) SearchMethods(scope string, keyword string, options SearchOptions) ([]*Method, SearchResult) {
+	if keyword == "" {
+		return []*Method{}, SearchResult{false}
+	}
+
+	methods := []*Method{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
+	query := searchQuery{
+		collection: methodCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(methodCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			if len(value) == 0 {
+				log.Printf("Empty methods: scope %s, %v", scope, strings.Split(string(completionValue), KeySep))
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			method := ReadMethod(d)
+			if isSymbolValid(method, options) {
+				methods = append(methods, method)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return methods, result
+}
+
+// GetClassConsts searches all class constants with the given scope and name from the disk
+// storage.
+// The word class is used loosely in here which means it can be interfaces/traits
+func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
+	entry := newEntry(classConstCollection, scope+KeySep+name)
+	classConsts := []*ClassConst{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		classConsts = append(classConsts, ReadClassConst(d))
+	})
+	return classConsts
+}
+
+// GetAllClassConsts returns all the class constants under the given scope.
+// The word class is used loosely in here, which means it can be classes/interfaces/traits
+func (s *Store) GetAllClassConsts(scope string) []*ClassConst {
+	entry := newEntry(classConstCollection, scope+KeySep)
+	classConsts := []*ClassConst{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		classConsts = append(classConsts, ReadClassConst(d))
+	})
+	return classConsts
+}
+
+// SearchClassConsts uses completion index to search class constants matching the
+// given scope and keyword.
+// If the scope is empty all matched class constants are returned.
+// The word class is used loosely in here, which means it can be classes/interfaces/traits
+func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOptions) ([]*ClassConst, SearchResult) {
+	if keyword == "" {
+		return s.GetAllClassConsts(scope), SearchResult{true}
+	}
+
+	classConsts := []*ClassConst{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
+	query := searchQuery{
+		collection: classConstCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(classConstCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			classConst := ReadClassConst(d)
+			if isSymbolValid(classConst, options) {
+				classConsts = append(classConsts, classConst)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return classConsts, result
+}
+
+// GetProperties searches all properties with the given scope and name from the disk storage
+func (s *Store) GetProperties(scope string, name string) []*Property {
+	entry := newEntry(propertyCollection, scope+KeySep+name+KeySep)
+	properties := []*Property{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		properties = append(properties, ReadProperty(d))
+	})
+	return properties
+}
+
+// GetAllProperties searches all properties with the given scope from the disk storage
+func (s *Store) GetAllProperties(scope string) []*Property {
+	entry := newEntry(propertyCollection, scope+KeySep)
+	properties := []*Property{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		properties = append(properties, ReadProperty(d))
+	})
+	return properties
+}
+
+// SearchProperties uses completion index to search properties matching the given scope
+// and name. If the scope is "", this will forward to `GetAllProperties`, and ignore keyword
+func (s *Store) SearchProperties(scope string, keyword string, options SearchOptions) ([]*Property, SearchResult) {
+	if keyword == "" {
+		return s.GetAllProperties(scope), SearchResult{true}
+	}
+
+	properties := []*Property{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
+	query := searchQuery{
+		collection: propertyCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(propertyCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			property := ReadProperty(d)
+			if isSymbolValid(property, options) {
+				properties = append(properties, property)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return properties, result
+}
+
+// GetGlobalVariables searches all global variables with the given name from the disk storage
+func (s *Store) GetGlobalVariables(name string) []*GlobalVariable {
+	entry := newEntry(globalVariableCollection, name+KeySep)
+	results := []*GlobalVariable{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		results = append(results, ReadGlobalVariable(d))
+	})
+	return results
+}
+
+// GetReferences returns the locations of the reference to an FQN
+func (s *Store) GetReferences(ref string) []protocol.Location {
+	return s.refIndex.search(s, ref)
+}
+
+// SymToRefs converts a HasTypes symbol to reference strings
+func SymToRefs(document *Document, sym HasTypes) []string {
+	var refs []string
+	switch v := sym.(type) {
+	case *FunctionCall:
+		possibleFQNs := document.ImportTableAtPos(sym.GetLocation().Range.Start).FunctionPossibleFQNs(NewTypeString(v.Name))
+		for _, fqn := range possibleFQNs {
+			sb := &strings.Builder{}
+			sb.WriteString(fqn)
+			sb.WriteString("()")
+			refs = append(refs, sb.String())
+		}
+	case *ClassTypeDesignator, *TypeDeclaration, *ClassAccess, *TraitAccess, *InterfaceAccess:
+		if c, ok := sym.(*ClassAccess); ok && IsNameRelative(c.Name) {
+			break
+		}
+		for _, t := range sym.GetTypes().Resolve() {
+			refs = append(refs, t.GetFQN())
+		}
+	case HasTypesHasScope:
+		sb := &strings.Builder{}
+		sb.WriteString(".")
+		sb.WriteString(v.MemberName())
+		refs = append(refs, sb.String())
+	}
+	return refs
+}
-- 
2.43.0


From f84f42c970604a5396c3571e96ad11d72e4fa742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 06/57] fix: deleting a folder no longer deletes files beside
 it

Documents whose path merely begins with the folder's name were deleted too.
---
 analysis/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index e506f74..ad614f4 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -389,7 +389,7 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 
 // DeleteFolder searches for documents and triggers `DeleteDocument`
 func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	entry := newEntry(documentCollection, uri)
+	entry := newEntry(documentCollection, strings.TrimSuffix(uri, "/")+"/")
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		uri := strings.Split(string(it.Key()), KeySep)[1]
 		s.DeleteDocument(uri)
-- 
2.43.0


From 9a0bbbbec44e997379ec3e23dedae9cabf3f3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 07/57] fix: keep class constants of every file and their
 visibility

The key of a class constant lacked its document, so that files declaring the
same constant overwrote and deleted each other's, looking one up matched
constants that merely begin with the name, and its visibility was not stored.
---
 analysis/classConst.go | 6 +++++-
 analysis/store.go      | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/analysis/classConst.go b/analysis/classConst.go
index c4036d4..3bd0b8c 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -124,7 +124,7 @@ func (s *ClassConst) GetCollection() string {
 }
 
 func (s *ClassConst) GetKey() string {
-	return s.Scope.fqn + KeySep + s.Name
+	return s.Scope.fqn + KeySep + s.Name + KeySep + s.location.URI
 }
 
 func (s *ClassConst) GetIndexableName() string {
@@ -149,6 +149,7 @@ func (s *ClassConst) Serialise(e *storage.Encoder) {
 	e.WriteString(s.Name)
 	e.WriteString(s.Value)
 	s.Scope.Write(e)
+	e.WriteInt(int(s.VisibilityModifier))
 	serialiseDeprecatedTag(e, s.deprecatedTag)
 }
 
@@ -159,6 +160,9 @@ func ReadClassConst(d *storage.Decoder) *ClassConst {
 		Name:          d.ReadString(),
 		Value:         d.ReadString(),
 		Scope:         ReadTypeString(d),
+
+		VisibilityModifier: VisibilityModifierValue(d.ReadInt()),
+
 		deprecatedTag: deserialiseDeprecatedTag(d),
 	}
 }
diff --git a/analysis/store.go b/analysis/store.go
index ad614f4..5367815 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1009,7 +1009,7 @@ func (s *Store) SearchMethods(scope string, keyword string, options SearchOption
 // storage.
 // The word class is used loosely in here which means it can be interfaces/traits
 func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
-	entry := newEntry(classConstCollection, scope+KeySep+name)
+	entry := newEntry(classConstCollection, scope+KeySep+name+KeySep)
 	classConsts := []*ClassConst{}
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		d := storage.NewDecoder(it.Value())
-- 
2.43.0


From 6b2675764ec6b7ea53db673efdaec1df84f18c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 08/57] fix: a crash while indexing leaves nothing stale

The symbols of a document, its completion entries and its hash were written to
three databases at different times, so that a crash in between left entries
which later runs did not know of or took for up to date. The list of symbols is
now part of the main batch and the hash is forgotten before anything else is
written. A store also closes, and clears, its completion database.
---
 analysis/store.go | 105 +++++++++++++++++++---------------------------
 1 file changed, 43 insertions(+), 62 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 5367815..a40331d 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -34,7 +34,6 @@ const (
 	propertyCollection           string = "pro"
 	globalVariableCollection     string = "gloVar"
 	documentCollection           string = "doc"
-	documentNamespacesCollection string = "docNs"
 
 	documentCompletionIndex   string = "docCom"
 	completionDataCollection  string = "comDatCol"
@@ -98,14 +97,6 @@ func readDocumentSymbol(d *storage.Decoder) documentSymbol {
 	}
 }
 
-type documentNamespace struct {
-	fullName string
-}
-
-func (s documentNamespace) serialise(e *storage.Encoder) {
-	e.WriteString(s.fullName)
-}
-
 // Store contains information about a given folder and functions
 // for querying symbols
 type Store struct {
@@ -113,7 +104,7 @@ type Store struct {
 	FS        protocol.FS
 	db        storage.DB
 	comDB     storage.DB
-	greb      *pogreb.DB
+	greb      *pogreb.DB // not opened any more, symbols of documents are in db
 	refIndex  *referenceIndex
 	stubbers  []stub.Stubber
 	documents cmap.ConcurrentMap
@@ -123,8 +114,9 @@ type Store struct {
 	DebouncedDeprecation func(func())
 }
 
-func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool) {
-	b, err := greb.Get(e.getKeyBytes())
+func readDocumentSymbols(db storage.DB, e *entry, fn func(documentSymbol) bool) {
+	// A document which is not indexed yet has no entry
+	b, err := db.Get(e.getKeyBytes())
 	if err == nil && len(b) > 0 {
 		d := storage.NewDecoder(b)
 		count := d.ReadInt()
@@ -135,9 +127,6 @@ func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool
 			}
 		}
 	}
-	if err != nil {
-		log.Fatal(err)
-	}
 }
 
 type symbolDeletor struct {
@@ -145,12 +134,12 @@ type symbolDeletor struct {
 	symbols mapset.Set[string]
 }
 
-func newSymbolDeletor(db storage.DB, greb *pogreb.DB, uri string) *symbolDeletor {
+func newSymbolDeletor(db storage.DB, uri string) *symbolDeletor {
 	deletor := &symbolDeletor{
 		uri:     uri,
 		symbols: mapset.New[string](),
 	}
-	readDocumentSymbols(greb, newEntry(documentSymbolsCollection, uri), func(symbol documentSymbol) bool {
+	readDocumentSymbols(db, newEntry(documentSymbolsCollection, uri), func(symbol documentSymbol) bool {
 		deletor.symbols.Put(symbol.collection + KeySep + symbol.key)
 		return false
 	})
@@ -219,10 +208,7 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 	}
 	comDB, err := storage.NewGoLevelDB(path.Join(storePath, "completion"))
 	if err != nil {
-		return nil, err
-	}
-	greb, err := pogreb.Open(path.Join(storePath, "pogreb"), nil)
-	if err != nil {
+		db.Close()
 		return nil, err
 	}
 	store := &Store{
@@ -230,7 +216,6 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 		FS:        fs,
 		db:        db,
 		comDB:     comDB,
-		greb:      greb,
 		refIndex:  newReferenceIndex(db),
 		stubbers:  stubbers,
 		documents: cmap.New(),
@@ -247,7 +232,10 @@ func (s *Store) Close() {
 		return
 	}
 	s.db.Close()
-	s.greb.Close()
+	s.comDB.Close()
+	if s.greb != nil {
+		s.greb.Close()
+	}
 	s.isClosed = true
 }
 
@@ -269,6 +257,8 @@ func (s *Store) PutVersion(version string) {
 // Clear triggers a disk clear
 func (s *Store) Clear() {
 	s.db.Clear()
+	s.comDB.Clear()
+	s.refIndex = newReferenceIndex(s.db)
 }
 
 // Migrate checks for defined version if it is less than
@@ -366,21 +356,14 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 // DeleteDocument deletes all symbols and indexes relating to the URI
 // this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
-	err := s.db.WriteBatch(func(b storage.Batch) error {
-		err := s.comDB.WriteBatch(func(comB storage.Batch) error {
-			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
-			ciDeletor.Delete(comB)
-			return nil
-		})
-		if err != nil {
-			return err
-		}
-		syDeletor := newSymbolDeletor(s.db, s.greb, uri)
+	err := s.updateDocument(uri, func(b storage.Batch, comB storage.Batch) {
+		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+		ciDeletor.Delete(comB)
+		syDeletor := newSymbolDeletor(s.db, uri)
 		syDeletor.Delete(b)
 		s.refIndex.deleteURI(s, b, uri)
-		entry := newEntry(documentCollection, uri)
-		b.Delete(entry.getKeyBytes())
-		return nil
+		b.Delete(newEntry(documentSymbolsCollection, uri).getKeyBytes())
+		b.Delete(newEntry(documentCollection, uri).getKeyBytes())
 	})
 	if err != nil {
 		log.Println(err)
@@ -434,27 +417,37 @@ func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Docume
 // or the fuzzy engine
 func (s *Store) SyncDocument(document *Document) {
 	defer util.TimeTrack(time.Now(), "SyncDocument")
-	err := s.db.WriteBatch(func(b storage.Batch) error {
-		s.comDB.WriteBatch(func(comB storage.Batch) error {
-			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
-			syDeletor := newSymbolDeletor(s.db, s.greb, document.GetURI())
-			s.refIndex.deleteURI(s, b, document.GetURI())
+	uri := document.GetURI()
+	err := s.updateDocument(uri, func(b storage.Batch, comB storage.Batch) {
+		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+		syDeletor := newSymbolDeletor(s.db, uri)
+		s.refIndex.deleteURI(s, b, uri)
 
-			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
+		s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
 
-			ciDeletor.Delete(comB)
-			syDeletor.Delete(b)
-			entry := newEntry(documentCollection, document.GetURI())
-			b.Put(entry.getKeyBytes(), document.GetHash())
-			return nil
-		})
-		return nil
+		ciDeletor.Delete(comB)
+		syDeletor.Delete(b)
+		entry := newEntry(documentCollection, uri)
+		b.Put(entry.getKeyBytes(), document.GetHash())
 	})
 	if err != nil {
 		log.Print(err)
 	}
 }
 
+// updateDocument writes the batches of a document into both databases. The two
+// cannot be written at once, thus the document's hash is forgotten before so
+// that the document is indexed again if only one of them has been written
+func (s *Store) updateDocument(uri string, fn func(b storage.Batch, comB storage.Batch)) error {
+	return s.db.WriteBatch(func(b storage.Batch) error {
+		err := s.comDB.WriteBatch(func(comB storage.Batch) error {
+			fn(b, comB)
+			return s.db.Put(newEntry(documentCollection, uri).getKeyBytes(), []byte{})
+		})
+		return err
+	})
+}
+
 func (s *Store) releaseDocIfNotOpen(document *Document) {
 	if !document.IsOpen() {
 		s.documents.Remove(document.uri)
@@ -504,7 +497,6 @@ func (s *Store) getSyncedDocumentURIs() map[string][]byte {
 
 func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, document *Document,
 	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) {
-	var documentNamespaces []documentNamespace
 	for _, impTable := range document.importTables {
 		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
 		for index, i := range is {
@@ -558,7 +550,6 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 		}
 	})
 	s.indexDocumentSymbols(document, batch, documentSymbols)
-	s.indexDocumentNamespaces(document, batch, documentNamespaces)
 	s.refIndex.index(s, document, batch, referenceEntryInfos)
 }
 
@@ -569,7 +560,7 @@ func (s *Store) indexDocumentSymbols(document *Document, batch storage.Batch, sy
 	for _, symbol := range symbols {
 		symbol.serialise(entry.e)
 	}
-	s.greb.Put(entry.getKeyBytes(), entry.e.Bytes())
+	writeEntry(batch, entry)
 }
 
 func (s *Store) indexName(batch storage.Batch, document *Document, indexable NameIndexable, key string) {
@@ -579,16 +570,6 @@ func (s *Store) indexName(batch storage.Batch, document *Document, indexable Nam
 	}
 }
 
-func (s *Store) indexDocumentNamespaces(document *Document, batch storage.Batch, namespaces []documentNamespace) {
-	uri := document.GetURI()
-	entry := newEntry(documentNamespacesCollection, uri)
-	entry.e.WriteInt(len(namespaces))
-	for _, ns := range namespaces {
-		ns.serialise(entry.e)
-	}
-	s.greb.Put(entry.getKeyBytes(), entry.e.Bytes())
-}
-
 func writeEntry(batch storage.Batch, entry *entry) {
 	batch.Put(entry.getKeyBytes(), entry.bytes())
 }
-- 
2.43.0


From 08e878bec1a34d0abf57904a0b212510c822a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 09/57] fix: every spelling of a file's URI denotes its file

Names with a plus or percent sign, or a colon, were decoded twice or taken for
drives, so that these files could not be read.
---
 util/uri.go | 61 +++++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/util/uri.go b/util/uri.go
index 44fedda..ea7418b 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -7,9 +7,12 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"regexp"
 	"strings"
 )
 
+var /* const */ isDrive = regexp.MustCompile(`^/[a-zA-Z]:(/|$)`)
+
 // URIToPath convert URI to file path
 func URIToPath(uri string) (string, error) {
 	urlIns, err := url.ParseRequestURI(uri)
@@ -21,13 +24,8 @@ func URIToPath(uri string) (string, error) {
 	if urlIns.Scheme != "file" {
 		return "", errors.New("cannot convert non-file URI")
 	}
-	filePath, err := url.QueryUnescape(urlIns.Path)
-
-	if err != nil {
-		return "", err
-	}
-
-	if strings.Contains(filePath, ":") {
+	filePath := urlIns.Path
+	if isDrive.MatchString(filePath) {
 		filePath = strings.TrimPrefix(filePath, "/")
 		filePath = strings.Replace(filePath, "/", "\\", -1)
 	}
@@ -37,25 +35,18 @@ func URIToPath(uri string) (string, error) {
 
 // PathToURI converts file path to URI
 func PathToURI(path string) string {
-	urlIns := new(url.URL)
-	path = strings.Replace(strings.Trim(path, "/"), "\\", "/", -1)
-	parts := strings.Split(path, "/")
-	first, parts := parts[0], parts[1:]
-
-	if !strings.HasSuffix(first, ":") {
-		first = url.QueryEscape(first)
+	path = strings.Trim(path, "/")
+	if len(path) >= 2 && path[1] == ':' {
+		path = strings.Replace(path, "\\", "/", -1)
 	}
-
-	tempParts := parts[:0]
-	for _, part := range parts {
-		tempParts = append(tempParts, url.QueryEscape(part))
+	parts := strings.Split(path, "/")
+	for i, part := range parts {
+		if i == 0 && strings.HasSuffix(part, ":") {
+			continue
+		}
+		parts[i] = strings.Replace(url.QueryEscape(part), "+", "%20", -1)
 	}
-	parts = append([]string{first}, tempParts...)
-
-	urlIns.Scheme = "file"
-	urlIns.Path = "/" + strings.Join(parts, "/")
-
-	return urlIns.String()
+	return "file:///" + strings.Join(parts, "/")
 }
 
 // GetURIID shortens the URI but still readable
@@ -102,6 +93,12 @@ func URIFromCanonicalURI(parent string, canonicalURI string) string {
 	return parent + canonicalURI
 }
 
+// IsURIUnder checks if the URI is the folder's or lies anywhere below it
+func IsURIUnder(folder string, uri string) bool {
+	folder = strings.TrimSuffix(folder, "/")
+	return uri == folder || strings.HasPrefix(uri, folder+"/")
+}
+
 // IsURINavigatable checks if the given URI is navigatable
 func IsURINavigatable(uri string) bool {
 	// TODO: Currently, the only navigatable URI is file
@@ -110,15 +107,19 @@ func IsURINavigatable(uri string) bool {
 	return strings.HasPrefix(uri, "file://")
 }
 
+// DecodeURIFromQuery returns the URI the way PathToURI writes it if it is a file's,
+// so that every spelling of a file's URI denotes the same document
 func DecodeURIFromQuery(uri string) (string, error) {
-	uri, err := url.QueryUnescape(uri)
-	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot QueryUnescape %s, err: %v", uri, err)
-	}
 	u, err := url.Parse(uri)
 	if err != nil {
 		return "", fmt.Errorf("workspaceStore.getStore cannot Parse %s, err: %v", uri, err)
 	}
-	uri = u.String()
-	return uri, nil
+	if u.Scheme != "file" {
+		return uri, nil
+	}
+	path, err := URIToPath(uri)
+	if err != nil {
+		return "", err
+	}
+	return PathToURI(path), nil
 }
-- 
2.43.0


From 2895561b027fd19be5419713ac795bc01bf68f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 10/57] fix: index the present contents whatever the timing of
 events

Indexing, deleting, opening, changing and closing a document ran concurrently
on it, with the contents of whichever came first: documents kept in memory hid
changes of their file, opening used the file's text instead of the client's,
closing indexed the unsaved text, and a deletion event processed late forgot a
file which had been created again. They are now serialised by document, and
what is indexed is the client's text for open documents and the file's present
contents for others. Folders are looked up by path, the innermost first, and
hand over their documents when one is added or removed inside another.
---
 analysis/store.go              | 253 +++++++++-----
 internal/lsp/sync.go           | 204 ++++++------
 internal/lsp/workspaceStore.go | 591 +++++++++++++++++++--------------
 3 files changed, 605 insertions(+), 443 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index a40331d..d281fc7 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -3,11 +3,15 @@ package analysis
 import (
 	"bytes"
 	"context"
+	"errors"
+	"hash/fnv"
+	"io/fs"
 	"log"
 	"os"
 	"path"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/Masterminds/semver"
@@ -108,7 +112,12 @@ type Store struct {
 	refIndex  *referenceIndex
 	stubbers  []stub.Stubber
 	documents cmap.ConcurrentMap
-	isClosed  bool
+	// closeMu is held for writing only while closing, so that nothing is written
+	// to a closed database
+	closeMu  sync.RWMutex
+	isClosed bool
+	// documentMu serialises, by document, whatever indexes or forgets it
+	documentMu [64]sync.Mutex
 
 	syncedDocumentURIs   cmap.ConcurrentMap
 	DebouncedDeprecation func(func())
@@ -194,7 +203,7 @@ func (s SearchOptions) IsLimitReached() bool {
 
 // NewStore creates a store with the disk storage or returns an error
 // if the disk storage cannot be created
-func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
+func NewStore(fileSystem protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
 	_, err := os.Stat(storePath)
 	if err != nil {
 		if os.IsNotExist(err) {
@@ -213,7 +222,7 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 	}
 	store := &Store{
 		uri:       uri,
-		FS:        fs,
+		FS:        fileSystem,
 		db:        db,
 		comDB:     comDB,
 		refIndex:  newReferenceIndex(db),
@@ -228,6 +237,8 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 
 // Close triggers close on the fuzzy engine, and closes the disk storage
 func (s *Store) Close() {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
 	if s.isClosed {
 		return
 	}
@@ -299,63 +310,107 @@ func (s *Store) LoadStubs() {
 	log.Printf("LoadStubs took %s", time.Since(start))
 }
 
+// IfOpen runs the function unless the store is closed, the store stays open
+// while the function is running
+func (s *Store) IfOpen(fn func()) {
+	s.closeMu.RLock()
+	defer s.closeMu.RUnlock()
+	if !s.isClosed {
+		fn()
+	}
+}
+
+// lockDocument runs the function as the only one which indexes or forgets the
+// document, it is not run if the store is closed
+func (s *Store) lockDocument(uri string, fn func()) {
+	s.IfOpen(func() {
+		h := fnv.New32a()
+		h.Write([]byte(uri))
+		mu := &s.documentMu[h.Sum32()%uint32(len(s.documentMu))]
+		mu.Lock()
+		defer mu.Unlock()
+		fn()
+	})
+}
+
+func (s *Store) openedDocument(uri string) *Document {
+	if value, ok := s.documents.Get(uri); ok {
+		return value.(*Document)
+	}
+	return nil
+}
+
 // GetOrCreateDocument checks if the store contains the given URI or
-// create a new document with the given URI
+// create a new document with the given URI from the contents of its file
 func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
-	var document *Document
-	if value, ok := s.documents.Get(uri); !ok {
-		data, err := s.FS.ReadFile(ctx, uri)
-		if err != nil {
-			log.Printf("GetOrCreateDocument error: %v", err)
-			return nil
-		}
-		document = NewDocument(uri, data)
-		s.SaveDocOnStore(document)
-	} else {
-		document = value.(*Document)
+	if document := s.openedDocument(uri); document != nil {
+		return document
 	}
+	data, err := s.FS.ReadFile(ctx, uri)
+	if err != nil {
+		log.Printf("GetOrCreateDocument error: %v", err)
+		return nil
+	}
+	document := NewDocument(uri, data)
+	document.Load()
 	return document
 }
 
-// OpenDocument loads and index the document with the given URI, at the same time
-// marks it as open to retain it on the memory
-func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("Document %s not found", uri)
-		return nil
-	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
+// OpenDocument loads and indexes the document with the given URI and text, which
+// is in the hands of the client from now on whatever happens to its file
+func (s *Store) OpenDocument(uri protocol.DocumentURI, text []byte) *Document {
+	document := NewDocument(uri, text)
 	document.Open()
 	document.Load()
-	s.SyncDocument(document)
+	s.AdoptDocument(document)
 	return document
 }
 
-// CloseDocument syncs the document with the given URI and marks
-// it as close to release memory
+// AdoptDocument retains the open document in memory and indexes it
+func (s *Store) AdoptDocument(document *Document) {
+	s.lockDocument(document.GetURI(), func() {
+		s.SaveDocOnStore(document)
+		s.SyncDocument(document)
+	})
+}
+
+// ChangeDocument applies the changes to the open document and indexes it, this
+// returns nil if the document is not open
+func (s *Store) ChangeDocument(uri protocol.DocumentURI, changes []protocol.TextDocumentContentChangeEvent) *Document {
+	var newDoc *Document
+	s.lockDocument(uri, func() {
+		document := s.openedDocument(uri)
+		if document == nil {
+			return
+		}
+		newDoc = document.CloneForMutate()
+		newDoc.ApplyChanges(changes)
+		s.SaveDocOnStore(newDoc)
+		s.SyncDocument(newDoc)
+	})
+	return newDoc
+}
+
+// CloseDocument releases the document with the given URI and indexes the
+// contents of its file again
 func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("document %s not found", uri)
-		return
-	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
-	document.Close()
-	s.SyncDocument(document)
+	s.lockDocument(uri, func() {
+		if s.openedDocument(uri) == nil {
+			return
+		}
+		s.documents.Remove(uri)
+		s.compareAndIndex(ctx, uri, true)
+	})
 }
 
 // DeleteDocument deletes all symbols and indexes relating to the URI
-// this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
+	s.lockDocument(uri, func() {
+		s.deleteDocument(uri)
+	})
+}
+
+func (s *Store) deleteDocument(uri protocol.DocumentURI) {
 	err := s.updateDocument(uri, func(b storage.Batch, comB storage.Batch) {
 		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
 		ciDeletor.Delete(comB)
@@ -372,45 +427,68 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 
 // DeleteFolder searches for documents and triggers `DeleteDocument`
 func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	entry := newEntry(documentCollection, strings.TrimSuffix(uri, "/")+"/")
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		uri := strings.Split(string(it.Key()), KeySep)[1]
-		s.DeleteDocument(uri)
+	for _, documentURI := range s.indexedURIsUnder(uri) {
+		s.DeleteDocument(documentURI)
+	}
+}
+
+func (s *Store) indexedURIsUnder(folder protocol.DocumentURI) []string {
+	var uris []string
+	s.IfOpen(func() {
+		entry := newEntry(documentCollection, strings.TrimSuffix(folder, "/")+"/")
+		s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+			uris = append(uris, strings.Split(string(it.Key()), KeySep)[1])
+		})
 	})
+	return uris
 }
 
 // CompareAndIndexDocument compares the file's hash with the stored one
 // on the disk, and if they are not matched load the document and sync.
-// The pointer to the document is returned
-func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Document {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		return nil
-	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
-
-	currentMD5 := document.GetHash()
-	savedMD5, ok := s.syncedDocumentURIs.Get(uri)
-	if ok {
+// An open document is left alone, because its contents is not the file's
+func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) {
+	s.lockDocument(uri, func() {
 		s.syncedDocumentURIs.Remove(uri)
-	} else {
-		entry := newEntry(documentCollection, document.GetURI())
-		value, err := s.db.Get(entry.getKeyBytes())
-		if err == nil {
-			savedMD5 = value
+		if s.openedDocument(uri) == nil {
+			s.compareAndIndex(ctx, uri, false)
 		}
+	})
+}
+
+// RemoveDocuments forgets the document, or documents of the folder, with the given
+// URI which do not exist any more, others are compared and indexed
+func (s *Store) RemoveDocuments(ctx context.Context, uri string) {
+	// Documents which are being indexed might have been read before
+	for i := range s.documentMu {
+		s.documentMu[i].Lock()
+		s.documentMu[i].Unlock()
 	}
-	if savedMD5 != nil && bytes.Equal(currentMD5, savedMD5.([]byte)) {
-		return document
+	for _, uri := range append(s.indexedURIsUnder(uri), uri) {
+		s.lockDocument(uri, func() {
+			_, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
+			if err == nil && s.openedDocument(uri) == nil {
+				s.compareAndIndex(ctx, uri, true)
+			}
+		})
 	}
+}
 
+func (s *Store) compareAndIndex(ctx context.Context, uri string, deleteIfUnreadable bool) {
+	data, err := s.FS.ReadFile(ctx, uri)
+	if err != nil {
+		log.Printf("Cannot read %s: %v", uri, err)
+		if deleteIfUnreadable || errors.Is(err, fs.ErrNotExist) {
+			s.deleteDocument(uri)
+		}
+		return
+	}
+	document := NewDocument(uri, data)
+	savedMD5, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
+	if err == nil && bytes.Equal(document.GetHash(), savedMD5) {
+		return
+	}
 	document.Load()
 	s.SyncDocument(document)
-	return document
 }
 
 // SyncDocument writes all definition symbols and indexes to the disk
@@ -448,12 +526,6 @@ func (s *Store) updateDocument(uri string, fn func(b storage.Batch, comB storage
 	})
 }
 
-func (s *Store) releaseDocIfNotOpen(document *Document) {
-	if !document.IsOpen() {
-		s.documents.Remove(document.uri)
-	}
-}
-
 // SaveDocOnStore retains the document in memory
 func (s *Store) SaveDocOnStore(document *Document) {
 	s.documents.Set(document.GetURI(), document)
@@ -474,16 +546,27 @@ func (s *Store) PrepareForIndexing() {
 // and delete them, because if the file exists its URI should be removed
 // from the map
 func (s *Store) FinishIndexing() {
-	err := s.db.WriteBatch(func(wb storage.Batch) error {
-		for iter := range s.syncedDocumentURIs.IterBuffered() {
-			s.DeleteDocument(iter.Key)
-			s.syncedDocumentURIs.Remove(iter.Key)
+	for iter := range s.syncedDocumentURIs.IterBuffered() {
+		uri := iter.Key
+		s.lockDocument(uri, func() {
+			if _, ok := s.syncedDocumentURIs.Pop(uri); ok && s.openedDocument(uri) == nil {
+				s.deleteDocument(uri)
+			}
+		})
+	}
+}
+
+// TakeOpenDocuments releases and returns the open documents of the given folder
+func (s *Store) TakeOpenDocuments(folder protocol.DocumentURI) []*Document {
+	var documents []*Document
+	for _, uri := range s.documents.Keys() {
+		if util.IsURIUnder(folder, uri) {
+			if value, ok := s.documents.Pop(uri); ok {
+				documents = append(documents, value.(*Document))
+			}
 		}
-		return nil
-	})
-	if err != nil {
-		log.Println(err)
 	}
+	return documents
 }
 
 func (s *Store) getSyncedDocumentURIs() map[string][]byte {
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index a685252..c1aff2e 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -1,102 +1,102 @@
-package lsp
-
-import (
-	"context"
-	"io/fs"
-	"log"
-	"os"
-	"path/filepath"
-	"strings"
-	"sync"
-
-	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
-	"github.com/john-nguyen09/phpintel/util"
-)
-
-func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
-	uri := params.TextDocument.URI
-	store := s.store.getStore(uri)
-	if store == nil {
-		return nil
-	}
-	document := store.OpenDocument(ctx, uri)
-	if document != nil {
-		s.provideDiagnostics(ctx, store, document)
-	}
-	return nil
-}
-
-func (s *Server) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	return s.store.changeDocument(ctx, params)
-}
-
-func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
-	uri := params.TextDocument.URI
-	store := s.store.getStore(uri)
-	if store == nil {
-		return nil
-	}
-	store.CloseDocument(ctx, uri)
-	return nil
-}
-
-func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.DidChangeWatchedFilesParams) error {
-	go func() {
-		var wg sync.WaitGroup
-		changes := append(params.Changes[:0:0], params.Changes...)
-		for _, change := range changes {
-			if change.Type == protocol.Deleted {
-				s.store.deleteJobs <- change.URI
-				continue
-			}
-
-			filePath, err := util.URIToPath(change.URI)
-			if err != nil {
-				continue
-			}
-			stats, err := os.Stat(filePath)
-			if err != nil {
-				if !os.IsNotExist(err) {
-					log.Printf("didChangeWatchedFiles error: %v, filePath: %s", err, filePath)
-				}
-				continue
-			}
-			matched := strings.HasSuffix(filePath, ".php")
-
-			if matched && !stats.IsDir() {
-				wg.Add(1)
-				s.store.createJobs <- creatorJob{
-					uri:       change.URI,
-					ctx:       ctx,
-					waitGroup: &wg,
-				}
-				continue
-			}
-
-			if !stats.IsDir() {
-				continue
-			}
-
-			err = filepath.WalkDir(filePath, func(path string, d fs.DirEntry, err error) error {
-				if err != nil {
-					return err
-				}
-				if !d.IsDir() && strings.HasSuffix(path, ".php") {
-					wg.Add(1)
-					s.store.createJobs <- creatorJob{
-						uri:       util.PathToURI(path),
-						ctx:       ctx,
-						waitGroup: &wg,
-					}
-				}
-				return nil
-			})
-
-			if err != nil {
-				log.Println(err)
-			}
-		}
-		wg.Wait()
-	}()
-	return nil
-}
+package lsp
+
+import (
+	"context"
+	"io/fs"
+	"log"
+	"os"
+	"path/filepath"
+	"strings"
+	"sync"
+
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
+	"github.com/john-nguyen09/phpintel/util"
+)
+
+func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
+	uri := params.TextDocument.URI
+	store := s.store.getStore(uri)
+	if store == nil {
+		return nil
+	}
+	document := store.OpenDocument(uri, []byte(params.TextDocument.Text))
+	s.provideDiagnostics(ctx, store, document)
+	return nil
+}
+
+func (s *Server) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
+	return s.store.changeDocument(ctx, params)
+}
+
+func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
+	uri := params.TextDocument.URI
+	store := s.store.getStore(uri)
+	if store == nil {
+		return nil
+	}
+	store.CloseDocument(ctx, uri)
+	return nil
+}
+
+func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.DidChangeWatchedFilesParams) error {
+	ctx = xcontext.Detach(ctx)
+	go func() {
+		var wg sync.WaitGroup
+		changes := append(params.Changes[:0:0], params.Changes...)
+		for _, change := range changes {
+			if change.Type == protocol.Deleted {
+				s.store.deleteJobs <- change.URI
+				continue
+			}
+
+			filePath, err := util.URIToPath(change.URI)
+			if err != nil {
+				continue
+			}
+			stats, err := os.Stat(filePath)
+			if err != nil {
+				if !os.IsNotExist(err) {
+					log.Printf("didChangeWatchedFiles error: %v, filePath: %s", err, filePath)
+				}
+				continue
+			}
+			matched := strings.HasSuffix(filePath, ".php")
+
+			if matched && !stats.IsDir() {
+				wg.Add(1)
+				s.store.createJobs <- creatorJob{
+					uri:       change.URI,
+					ctx:       ctx,
+					waitGroup: &wg,
+				}
+				continue
+			}
+
+			if !stats.IsDir() {
+				continue
+			}
+
+			err = filepath.WalkDir(filePath, func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					return err
+				}
+				if !d.IsDir() && strings.HasSuffix(path, ".php") {
+					wg.Add(1)
+					s.store.createJobs <- creatorJob{
+						uri:       util.PathToURI(path),
+						ctx:       ctx,
+						waitGroup: &wg,
+					}
+				}
+				return nil
+			})
+
+			if err != nil {
+				log.Println(err)
+			}
+		}
+		wg.Wait()
+	}()
+	return nil
+}
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 31603cf..802e1bb 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -1,256 +1,335 @@
-package lsp
-
-import (
-	"context"
-	"log"
-	"net/url"
-	"path/filepath"
-	"strings"
-	"sync"
-	"time"
-
-	"github.com/john-nguyen09/phpintel/analysis"
-	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
-	"github.com/john-nguyen09/phpintel/util"
-)
-
-const numCreators int = 2
-const numDeletors int = 1
-
-type creatorJob struct {
-	uri       string
-	ctx       context.Context
-	waitGroup *sync.WaitGroup
-}
-
-type workspaceStore struct {
-	server     *Server
-	ctx        context.Context
-	stores     []*analysis.Store
-	createJobs chan creatorJob
-	deleteJobs chan string
-}
-
-func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
-	workspaceStore := &workspaceStore{
-		server:     server,
-		ctx:        ctx,
-		stores:     []*analysis.Store{},
-		createJobs: make(chan creatorJob),
-		deleteJobs: make(chan string),
-	}
-	for i := 0; i < numCreators; i++ {
-		go workspaceStore.newCreator(i)
-	}
-	for i := 0; i < numDeletors; i++ {
-		go workspaceStore.newDeletor(i)
-	}
-	return workspaceStore
-}
-
-func (s *workspaceStore) newCreator(id int) {
-	for job := range s.createJobs {
-		uri, err := util.DecodeURIFromQuery(job.uri)
-		if err != nil {
-			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
-			continue
-		}
-		store := s.getStore(uri)
-		if store == nil {
-			if job.waitGroup != nil {
-				job.waitGroup.Done()
-			}
-			log.Printf("workspaceStore.newCreator store not found: %s", uri)
-			log.Printf("Stores:")
-			for _, store := range s.stores {
-				log.Println(store.GetURI())
-			}
-			continue
-		}
-		store.CompareAndIndexDocument(job.ctx, uri)
-		if job.waitGroup != nil {
-			job.waitGroup.Done()
-		}
-	}
-}
-
-func (s *workspaceStore) newDeletor(id int) {
-	for uri := range s.deleteJobs {
-		var err error
-		uri, err = util.DecodeURIFromQuery(uri)
-		if err != nil {
-			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", uri, err)
-			continue
-		}
-		store := s.getStore(uri)
-		if store == nil {
-			continue
-		}
-		s.removeDocument(store, uri)
-	}
-}
-
-func (s *workspaceStore) close() {
-	for _, store := range s.stores {
-		store.Close()
-	}
-}
-
-func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
-	u, err := url.Parse(uri)
-	if err != nil {
-		log.Printf("%s: %v", uri, err)
-		return
-	}
-	var (
-		fs       protocol.FS
-		rootPath string = uri
-	)
-	switch {
-	case s.server.fileExtensionsSupported:
-		fs = protocol.NewLSPFS(s.server.Conn)
-	case u.Scheme == "file":
-		var err error
-		fs = protocol.NewFileFS()
-		rootPath, err = util.URIToPath(uri)
-		if err != nil {
-			log.Printf("addView: %s - %v", uri, err)
-			return
-		}
-	}
-	if fs == nil {
-		log.Printf("No FS found for: %s", uri)
-		return
-	}
-	storagePath := filepath.Join(getDataDir(), "data", util.GetURIID(uri))
-	store, err := analysis.NewStore(fs, uri, storagePath)
-	if err != nil {
-		log.Printf("%s: %v", uri, err)
-		return
-	}
-	store.Migrate(protocol.GetVersion(ctx))
-	store.LoadStubs()
-	s.stores = append(s.stores, store)
-	if err != nil {
-		log.Printf("addView error: %v", err)
-		return
-	}
-	s.indexFolder(ctx, store, rootPath)
-	err = s.registerFileWatcher(ctx, uri, server)
-	if err != nil {
-		log.Printf("addView error: %v", err)
-	}
-}
-
-func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
-	store := s.getStore(uri)
-	if store == nil {
-		return
-	}
-	defer store.Close()
-	s.removeStore(store.GetURI())
-	s.unregisterFileWatcher(ctx, uri, server)
-}
-
-func getFileWatcherID(base string) string {
-	return base + "-fileWatcher"
-}
-
-func (s *workspaceStore) registerFileWatcher(ctx context.Context, base string, server *Server) error {
-	// fileExtensions := "php"
-	regParams := protocol.DidChangeWatchedFilesRegistrationOptions{
-		Watchers: []protocol.FileSystemWatcher{{
-			GlobPattern: "**/*",
-			Kind:        int(protocol.WatchCreate + protocol.WatchChange + protocol.WatchDelete),
-		}},
-	}
-	return server.client.RegisterCapability(ctx, &protocol.RegistrationParams{
-		Registrations: []protocol.Registration{
-			{
-				ID: getFileWatcherID(base), Method: "workspace/didChangeWatchedFiles", RegisterOptions: regParams,
-			},
-		},
-	})
-}
-
-func (s *workspaceStore) unregisterFileWatcher(ctx context.Context, path string, server *Server) error {
-	return server.client.UnregisterCapability(ctx, &protocol.UnregistrationParams{
-		Unregisterations: []protocol.Unregistration{
-			{
-				ID: getFileWatcherID(path), Method: "workspace/didChangeWatchedFiles",
-			},
-		},
-	})
-}
-
-func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store, rootPath string) {
-	var waitGroup sync.WaitGroup
-	store.PrepareForIndexing()
-	go func() {
-		log.Println("Start indexing")
-		start := time.Now()
-		count := 0
-		if docs, err := store.FS.ListFiles(ctx, rootPath); err == nil {
-			for _, doc := range docs {
-				if strings.HasSuffix(doc.URI, ".php") {
-					count++
-					waitGroup.Add(1)
-					s.createJobs <- creatorJob{
-						uri:       store.FS.ConvertToURI(doc.URI),
-						ctx:       ctx,
-						waitGroup: &waitGroup,
-					}
-				}
-			}
-		} else {
-			log.Printf("indexFolder: %v", err)
-			return
-		}
-		waitGroup.Wait()
-		store.FinishIndexing()
-		elapsed := time.Since(start)
-		log.Printf("Finished indexing %d files in %s", count, elapsed)
-		util.PrintMemUsage()
-	}()
-}
-
-func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
-	for _, store := range s.stores {
-		if strings.HasPrefix(uri, store.GetURI()) {
-			return store
-		}
-	}
-	return nil
-}
-
-func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
-	for i, store := range s.stores {
-		if store.GetURI() == uri {
-			s.stores = append(s.stores[:i], s.stores[i+1:]...)
-			break
-		}
-	}
-}
-
-func (s *workspaceStore) removeDocument(store *analysis.Store, uri string) {
-	store.DeleteDocument(uri)
-	store.DeleteFolder(uri)
-}
-
-func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	uri := params.TextDocument.URI
-	store := s.getStore(uri)
-	if store == nil {
-		return nil
-	}
-	document := store.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		return nil
-	}
-	newDoc := document.CloneForMutate()
-	newDoc.ApplyChanges(params.ContentChanges)
-	store.SyncDocument(newDoc)
-	store.SaveDocOnStore(newDoc)
-	s.server.provideDiagnostics(ctx, store, newDoc)
-	return nil
-}
+package lsp
+
+import (
+	"context"
+	"log"
+	"net/url"
+	"path/filepath"
+	"strings"
+	"sync"
+	"time"
+
+	"github.com/john-nguyen09/phpintel/analysis"
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
+	"github.com/john-nguyen09/phpintel/util"
+)
+
+const numCreators int = 2
+const numDeletors int = 1
+
+type creatorJob struct {
+	uri       string
+	ctx       context.Context
+	waitGroup *sync.WaitGroup
+}
+
+type workspaceStore struct {
+	server     *Server
+	ctx        context.Context
+	mu         sync.RWMutex // guards stores
+	stores     []*analysis.Store
+	createJobs chan creatorJob
+	deleteJobs chan string
+}
+
+func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
+	workspaceStore := &workspaceStore{
+		server:     server,
+		ctx:        ctx,
+		stores:     []*analysis.Store{},
+		createJobs: make(chan creatorJob),
+		deleteJobs: make(chan string),
+	}
+	for i := 0; i < numCreators; i++ {
+		go workspaceStore.newCreator(i)
+	}
+	for i := 0; i < numDeletors; i++ {
+		go workspaceStore.newDeletor(i)
+	}
+	return workspaceStore
+}
+
+func (s *workspaceStore) newCreator(id int) {
+	for job := range s.createJobs {
+		uri, err := util.DecodeURIFromQuery(job.uri)
+		if err != nil {
+			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
+			if job.waitGroup != nil {
+				job.waitGroup.Done()
+			}
+			continue
+		}
+		s.indexDocument(job.ctx, uri)
+		if job.waitGroup != nil {
+			job.waitGroup.Done()
+		}
+	}
+}
+
+// indexDocument indexes the document in the store it belongs to, also if the folders
+// change meanwhile
+func (s *workspaceStore) indexDocument(ctx context.Context, uri string) {
+	store := s.getStore(uri)
+	for store != nil {
+		store.CompareAndIndexDocument(ctx, uri)
+		current := s.getStore(uri)
+		if current == store {
+			return
+		}
+		store.DeleteDocument(uri)
+		store = current
+	}
+}
+
+func (s *workspaceStore) newDeletor(id int) {
+	for uri := range s.deleteJobs {
+		uri, err := util.DecodeURIFromQuery(uri)
+		if err != nil {
+			log.Printf("workspaceStore.newDeletor: %v", err)
+			continue
+		}
+		for _, store := range s.storesAbout(uri) {
+			store.RemoveDocuments(s.ctx, uri)
+		}
+	}
+}
+
+func (s *workspaceStore) close() {
+	s.mu.Lock()
+	stores := s.stores
+	s.stores = nil
+	s.mu.Unlock()
+	for _, store := range stores {
+		store.Close()
+	}
+}
+
+func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	u, err := url.Parse(uri)
+	if err != nil {
+		log.Printf("%s: %v", uri, err)
+		return
+	}
+	var (
+		fs       protocol.FS
+		rootPath string = uri
+	)
+	switch {
+	case s.server.fileExtensionsSupported:
+		fs = protocol.NewLSPFS(s.server.Conn)
+	case u.Scheme == "file":
+		var err error
+		fs = protocol.NewFileFS()
+		rootPath, err = util.URIToPath(uri)
+		if err != nil {
+			log.Printf("addView: %s - %v", uri, err)
+			return
+		}
+	}
+	if fs == nil {
+		log.Printf("No FS found for: %s", uri)
+		return
+	}
+	if s.hasStore(uri) {
+		return
+	}
+	storagePath := filepath.Join(getDataDir(), "data", util.GetURIID(uri))
+	store, err := analysis.NewStore(fs, uri, storagePath)
+	if err != nil {
+		log.Printf("%s: %v", uri, err)
+		return
+	}
+	store.Migrate(protocol.GetVersion(ctx))
+	store.LoadStubs()
+	s.addStore(store)
+	if enclosing := s.enclosingStore(uri); enclosing != nil {
+		// The documents below the folder are its own from now on
+		for _, document := range enclosing.TakeOpenDocuments(uri) {
+			store.AdoptDocument(document)
+		}
+		enclosing.DeleteFolder(uri)
+	}
+	s.indexFolder(ctx, store, rootPath, true)
+	err = s.registerFileWatcher(ctx, uri, server)
+	if err != nil {
+		log.Printf("addView error: %v", err)
+	}
+}
+
+func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	store := s.removeStore(uri)
+	if store == nil {
+		return
+	}
+	if enclosing := s.getStore(uri); enclosing != nil {
+		// The enclosing folder is in charge of the documents again
+		for _, document := range store.TakeOpenDocuments(uri) {
+			enclosing.AdoptDocument(document)
+		}
+		rootPath := uri
+		if _, ok := enclosing.FS.(*protocol.FileFS); ok {
+			rootPath, _ = util.URIToPath(uri)
+		}
+		s.indexFolder(ctx, enclosing, rootPath, false)
+	}
+	store.Close()
+	s.unregisterFileWatcher(ctx, uri, server)
+}
+
+func getFileWatcherID(base string) string {
+	return base + "-fileWatcher"
+}
+
+func (s *workspaceStore) registerFileWatcher(ctx context.Context, base string, server *Server) error {
+	// fileExtensions := "php"
+	regParams := protocol.DidChangeWatchedFilesRegistrationOptions{
+		Watchers: []protocol.FileSystemWatcher{{
+			GlobPattern: "**/*",
+			Kind:        int(protocol.WatchCreate + protocol.WatchChange + protocol.WatchDelete),
+		}},
+	}
+	return server.client.RegisterCapability(ctx, &protocol.RegistrationParams{
+		Registrations: []protocol.Registration{
+			{
+				ID: getFileWatcherID(base), Method: "workspace/didChangeWatchedFiles", RegisterOptions: regParams,
+			},
+		},
+	})
+}
+
+func (s *workspaceStore) unregisterFileWatcher(ctx context.Context, path string, server *Server) error {
+	return server.client.UnregisterCapability(ctx, &protocol.UnregistrationParams{
+		Unregisterations: []protocol.Unregistration{
+			{
+				ID: getFileWatcherID(path), Method: "workspace/didChangeWatchedFiles",
+			},
+		},
+	})
+}
+
+// indexFolder indexes the documents of the folder in the background, forgetting those
+// which do not exist any more if it is the store's own folder
+func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store, rootPath string, isStoreFolder bool) {
+	// The indexing outlives the message which has started it
+	ctx = xcontext.Detach(ctx)
+	var waitGroup sync.WaitGroup
+	if isStoreFolder {
+		store.PrepareForIndexing()
+	}
+	go func() {
+		log.Println("Start indexing")
+		start := time.Now()
+		count := 0
+		if docs, err := store.FS.ListFiles(ctx, rootPath); err == nil {
+			for _, doc := range docs {
+				if strings.HasSuffix(doc.URI, ".php") {
+					count++
+					waitGroup.Add(1)
+					s.createJobs <- creatorJob{
+						uri:       store.FS.ConvertToURI(doc.URI),
+						ctx:       ctx,
+						waitGroup: &waitGroup,
+					}
+				}
+			}
+		} else {
+			log.Printf("indexFolder: %v", err)
+			return
+		}
+		waitGroup.Wait()
+		if isStoreFolder {
+			store.FinishIndexing()
+		}
+		elapsed := time.Since(start)
+		log.Printf("Finished indexing %d files in %s", count, elapsed)
+		util.PrintMemUsage()
+	}()
+}
+
+// getStore returns the store of the innermost folder containing the URI
+func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
+	return s.findStore(func(folder protocol.DocumentURI) bool {
+		return util.IsURIUnder(folder, uri)
+	})
+}
+
+// enclosingStore returns the store which contains the folder but is not the folder's
+func (s *workspaceStore) enclosingStore(uri protocol.DocumentURI) *analysis.Store {
+	return s.findStore(func(folder protocol.DocumentURI) bool {
+		return util.IsURIUnder(folder, uri) && !util.IsURIUnder(uri, folder)
+	})
+}
+
+func (s *workspaceStore) findStore(contains func(protocol.DocumentURI) bool) *analysis.Store {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	var found *analysis.Store
+	for _, store := range s.stores {
+		if contains(store.GetURI()) && (found == nil || util.IsURIUnder(found.GetURI(), store.GetURI())) {
+			found = store
+		}
+	}
+	return found
+}
+
+// storesAbout returns the store the URI belongs to and, if it is a folder's, the
+// stores of the folders below it
+func (s *workspaceStore) storesAbout(uri protocol.DocumentURI) []*analysis.Store {
+	var stores []*analysis.Store
+	if store := s.getStore(uri); store != nil {
+		stores = append(stores, store)
+	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	for _, store := range s.stores {
+		if util.IsURIUnder(uri, store.GetURI()) && !util.IsURIUnder(store.GetURI(), uri) {
+			stores = append(stores, store)
+		}
+	}
+	return stores
+}
+
+func (s *workspaceStore) hasStore(uri protocol.DocumentURI) bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	for _, store := range s.stores {
+		if store.GetURI() == uri {
+			return true
+		}
+	}
+	return false
+}
+
+func (s *workspaceStore) addStore(store *analysis.Store) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.stores = append(s.stores[:len(s.stores):len(s.stores)], store)
+}
+
+// removeStore removes and returns the store of the folder, nil if there is none
+func (s *workspaceStore) removeStore(uri protocol.DocumentURI) *analysis.Store {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	for i, store := range s.stores {
+		if store.GetURI() == uri {
+			s.stores = append(s.stores[:i:i], s.stores[i+1:]...)
+			return store
+		}
+	}
+	return nil
+}
+
+func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
+	uri := params.TextDocument.URI
+	store := s.getStore(uri)
+	if store == nil {
+		return nil
+	}
+	document := store.ChangeDocument(uri, params.ContentChanges)
+	if document == nil {
+		return nil
+	}
+	s.server.provideDiagnostics(ctx, store, document)
+	return nil
+}
-- 
2.43.0


From 069e5e2131aa478a75620a3e4d211f0d1a24177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 11/57] fix: initialise exactly once and keep answering
 afterwards

A second initialize left stateMu locked, so that the next initialized or shutdown
blocked the connection forever; a refused initialize could not be repeated; and
initialized without initialize, or after shutdown, opened folders.
---
 internal/lsp/general.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/lsp/general.go b/internal/lsp/general.go
index 704e8e9..4f834c9 100644
--- a/internal/lsp/general.go
+++ b/internal/lsp/general.go
@@ -26,18 +26,14 @@ func getDataDir() string {
 
 func (s *Server) initialize(ctx context.Context, params *protocol.InitializeParams) (*protocol.InitializeResult, error) {
 	s.stateMu.Lock()
-	state := s.state
-	if state >= serverInitializing {
+	defer s.stateMu.Unlock()
+	if s.state >= serverInitializing {
 		return nil, jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "already initialised")
 	}
-	s.state = serverInitializing
-	s.fileExtensionsSupported = params.Capabilities.XContentProvider && params.Capabilities.XFilesProvider
-	s.stateMu.Unlock()
-
-	s.pendingFolders = params.WorkspaceFolders
-	if len(s.pendingFolders) == 0 {
+	pendingFolders := params.WorkspaceFolders
+	if len(pendingFolders) == 0 {
 		if params.RootURI != "" {
-			s.pendingFolders = []protocol.WorkspaceFolder{{
+			pendingFolders = []protocol.WorkspaceFolder{{
 				URI:  params.RootURI,
 				Name: path.Base(params.RootURI),
 			}}
@@ -45,6 +41,9 @@ func (s *Server) initialize(ctx context.Context, params *protocol.InitializePara
 			return nil, errors.Errorf("single file is not supported")
 		}
 	}
+	s.state = serverInitializing
+	s.fileExtensionsSupported = params.Capabilities.XContentProvider && params.Capabilities.XFilesProvider
+	s.pendingFolders = pendingFolders
 	return &protocol.InitializeResult{
 		Capabilities: protocol.ServerCapabilities{
 			CompletionProvider: &protocol.CompletionOptions{
@@ -93,6 +92,10 @@ func (s *Server) initialize(ctx context.Context, params *protocol.InitializePara
 
 func (s *Server) initialized(ctx context.Context, params *protocol.InitializedParams) error {
 	s.stateMu.Lock()
+	if s.state != serverInitializing {
+		s.stateMu.Unlock()
+		return jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "not initialising")
+	}
 	s.state = serverInitialized
 	s.stateMu.Unlock()
 	version := protocol.GetVersion(ctx)
-- 
2.43.0


From 71b46cba05c541a7cc8fdb3f3504bf705971e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 12/57] fix: folders which do not exist or have no path do not
 crash the server

---
 internal/lsp/protocol/fs.go | 3 +++
 util/uri.go                 | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/lsp/protocol/fs.go b/internal/lsp/protocol/fs.go
index d905203..8c56a1d 100644
--- a/internal/lsp/protocol/fs.go
+++ b/internal/lsp/protocol/fs.go
@@ -89,6 +89,9 @@ func (f *FileFS) ListFiles(ctx context.Context, base string) ([]TextDocumentIden
 	err := filepath.WalkDir(base, func(path string, info os.DirEntry, err error) error {
 		if err != nil {
 			log.Printf("FileFS.WalkDir error: %v", err)
+			if info == nil {
+				return nil
+			}
 		}
 
 		if !info.IsDir() {
diff --git a/util/uri.go b/util/uri.go
index ea7418b..87b41d3 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -63,6 +63,9 @@ func GetURIID(uri string) string {
 	if parts[len(parts)-1] == "" {
 		parts = parts[:len(parts)-1]
 	}
+	if len(parts) == 0 {
+		return hash
+	}
 	parts, lastPart := parts[:len(parts)-1], parts[len(parts)-1]
 	result := lastPart + "-"
 	if len(parts) > 0 {
-- 
2.43.0


From 6f8589eaa9a0361ef0c748748fcecd05fc686f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 13/57] fix: a message without params no longer crashes the
 server

---
 internal/lsp/protocol/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/protocol/server.go b/internal/lsp/protocol/server.go
index febff16..25e48c7 100644
--- a/internal/lsp/protocol/server.go
+++ b/internal/lsp/protocol/server.go
@@ -72,6 +72,12 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	handleError := func(err error) {
 		log.Printf("Server.Deliver %s: %v", r.Method, err)
 	}
+	if r.Params == nil {
+		// Methods without parameters may come without params, for the others this is
+		// the same as null
+		params := json.RawMessage("null")
+		r.Params = &params
+	}
 	switch r.Method {
 	case "workspace/didChangeWorkspaceFolders": // notif
 		var params DidChangeWorkspaceFoldersParams
@@ -287,7 +293,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		}
 		return true
 	case "shutdown": // req
-		if r.Params != nil {
+		if string(*r.Params) != "null" {
 			r.Reply(ctx, nil, jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidParams, "Expected no params"))
 			return true
 		}
-- 
2.43.0


From f4cdb8b95122639dae73c2e6a7110ae38b1375c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 14/57] fix: deprecations are published for every document, of
 its latest text

The debouncing was shared by all documents, so that a change in one document dropped
the deprecations of another; the closure was also run for text already replaced or
closed, after the store had been closed, and raced with requests on the document.
---
 analysis/store.go           | 33 +++++++++++++++++++++++++++++----
 internal/lsp/diagnostics.go |  6 +++---
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index d281fc7..16ab41d 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -119,8 +119,9 @@ type Store struct {
 	// documentMu serialises, by document, whatever indexes or forgets it
 	documentMu [64]sync.Mutex
 
-	syncedDocumentURIs   cmap.ConcurrentMap
-	DebouncedDeprecation func(func())
+	syncedDocumentURIs cmap.ConcurrentMap
+	debouncers         cmap.ConcurrentMap
+	debouncedMu        sync.Mutex // makes what is debounced run one after another
 }
 
 func readDocumentSymbols(db storage.DB, e *entry, fn func(documentSymbol) bool) {
@@ -229,8 +230,8 @@ func NewStore(fileSystem protocol.FS, uri protocol.DocumentURI, storePath string
 		stubbers:  stubbers,
 		documents: cmap.New(),
 
-		syncedDocumentURIs:   cmap.New(),
-		DebouncedDeprecation: debounce.New(2 * time.Second),
+		syncedDocumentURIs: cmap.New(),
+		debouncers:         cmap.New(),
 	}
 	return store, nil
 }
@@ -526,6 +527,30 @@ func (s *Store) updateDocument(uri string, fn func(b storage.Batch, comB storage
 	})
 }
 
+// DebouncedDeprecation runs the function with a copy of the document once the
+// document has not changed for a while, unless it is not open any more by then
+func (s *Store) DebouncedDeprecation(document *Document, fn func(document *Document)) {
+	debounced := s.debouncers.Upsert(document.GetURI(), nil, func(exist bool, old interface{}, _ interface{}) interface{} {
+		if exist {
+			return old
+		}
+		return debounce.New(2 * time.Second)
+	}).(func(func()))
+	debounced(func() {
+		s.IfOpen(func() {
+			s.debouncedMu.Lock()
+			defer s.debouncedMu.Unlock()
+			if s.openedDocument(document.GetURI()) != document {
+				return
+			}
+			// Symbols keep what they have been resolved to, requests may be using them
+			document := document.CloneForMutate()
+			document.Load()
+			fn(document)
+		})
+	})
+}
+
 // SaveDocOnStore retains the document in memory
 func (s *Store) SaveDocOnStore(document *Document) {
 	s.documents.Set(document.GetURI(), document)
diff --git a/internal/lsp/diagnostics.go b/internal/lsp/diagnostics.go
index 80e0bb4..590c337 100644
--- a/internal/lsp/diagnostics.go
+++ b/internal/lsp/diagnostics.go
@@ -12,14 +12,14 @@ import (
 func (s *Server) provideDiagnostics(ctx context.Context, store *analysis.Store, document *analysis.Document) {
 	diagnostics := analysis.GetParserDiagnostics(document)
 	diagnostics = append(diagnostics, analysis.UnusedDiagnostics(document)...)
-	store.DebouncedDeprecation(func() {
-		ctx = xcontext.Detach(ctx)
+	detachedCtx := xcontext.Detach(ctx)
+	store.DebouncedDeprecation(document, func(document *analysis.Document) {
 		params := &protocol.PublishDiagnosticsParams{
 			URI: document.GetURI(),
 			Diagnostics: append(diagnostics,
 				analysis.DeprecatedDiagnostics(analysis.NewResolveContext(analysis.NewQuery(store), document))...),
 		}
-		err := s.client.PublishDiagnostics(ctx, params)
+		err := s.client.PublishDiagnostics(detachedCtx, params)
 		if err != nil {
 			log.Println(err)
 		}
-- 
2.43.0


From d13aa45ea60031f676af5e8f5bee815fba0e80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 15/57] fix: the memory storage keeps what is written during a
 batch and copies

A batch replaced the whole tree by a copy made when it began, and keys and values
were shared with the caller; Combined closed and stopped only the first storage.
---
 analysis/storage/main.go   | 13 +++++++++++--
 analysis/storage/memory.go | 33 +++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/analysis/storage/main.go b/analysis/storage/main.go
index ea4398a..0024ced 100644
--- a/analysis/storage/main.go
+++ b/analysis/storage/main.go
@@ -74,7 +74,9 @@ func (c *Combined) mode(mode DBMode) DB {
 }
 
 func (c *Combined) Close() {
-	c.mode(ModeMemory).Close()
+	for _, db := range c.dbs {
+		db.Close()
+	}
 }
 
 func (c *Combined) Clear(mode DBMode) {
@@ -103,8 +105,15 @@ func (c *Combined) PrefixStream(mode DBMode, prefix []byte, onData func(Iterator
 }
 
 func (c *Combined) PrefixStreamFromAll(prefix []byte, onData func(Iterator)) {
+	isStopped := false
 	for _, db := range c.dbs {
-		db.PrefixStream(prefix, onData)
+		if isStopped {
+			return
+		}
+		db.PrefixStream(prefix, func(it Iterator) {
+			onData(it)
+			isStopped = !it.valid()
+		})
 	}
 }
 
diff --git a/analysis/storage/memory.go b/analysis/storage/memory.go
index 25952fe..a744081 100644
--- a/analysis/storage/memory.go
+++ b/analysis/storage/memory.go
@@ -31,7 +31,7 @@ func (m *memory) Delete(key []byte) error {
 }
 
 func (m *memory) Put(key []byte, value []byte) error {
-	m.radix, _, _ = m.radix.Insert(key, value)
+	m.radix, _, _ = m.radix.Insert(copyByteSlice(key), copyByteSlice(value))
 	return nil
 }
 
@@ -46,10 +46,11 @@ func (m *memory) Get(key []byte) ([]byte, error) {
 }
 
 func (m *memory) WriteBatch(f func(Batch) error) error {
-	b := newMemoryBatch(m)
+	b := newMemoryBatch()
 	err := f(b)
 	if err == nil {
-		m.radix = b.commit()
+		// What the callback wrote outside of the batch must not be lost
+		m.radix = b.commit(m.radix)
 	}
 	return err
 }
@@ -61,27 +62,35 @@ func (m *memory) PrefixStream(prefix []byte, onData func(Iterator)) {
 }
 
 type memoryBatch struct {
-	txn *iradix.Txn
+	ops []func(*iradix.Txn)
 }
 
 var _ Batch = (*memoryBatch)(nil)
 
-func newMemoryBatch(m *memory) *memoryBatch {
-	return &memoryBatch{
-		txn: m.radix.Txn(),
-	}
+func newMemoryBatch() *memoryBatch {
+	return &memoryBatch{}
 }
 
 func (b *memoryBatch) Delete(key []byte) {
-	b.txn.Delete(key)
+	key = copyByteSlice(key)
+	b.ops = append(b.ops, func(txn *iradix.Txn) {
+		txn.Delete(key)
+	})
 }
 
 func (b *memoryBatch) Put(key []byte, value []byte) {
-	b.txn.Insert(key, value)
+	key, value = copyByteSlice(key), copyByteSlice(value)
+	b.ops = append(b.ops, func(txn *iradix.Txn) {
+		txn.Insert(key, value)
+	})
 }
 
-func (b *memoryBatch) commit() *iradix.Tree {
-	return b.txn.Commit()
+func (b *memoryBatch) commit(radix *iradix.Tree) *iradix.Tree {
+	txn := radix.Txn()
+	for _, op := range b.ops {
+		op(txn)
+	}
+	return txn.Commit()
 }
 
 type memoryIterator struct {
-- 
2.43.0


From 33092f20e3c8425517d02c59ed276263c1f2ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:45 +0000
Subject: [PATCH 16/57] fix: searches of every kind keep to the requested
 namespace and match whole words

---
 analysis/const.go  | 10 ++++++++++
 analysis/define.go | 10 ++++++++++
 analysis/store.go  | 40 +++++++++++++++++++++++-----------------
 analysis/trait.go  | 10 ++++++++++
 4 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/analysis/const.go b/analysis/const.go
index 84c0e88..83a4b02 100644
--- a/analysis/const.go
+++ b/analysis/const.go
@@ -94,6 +94,16 @@ func (s *Const) GetIndexCollection() string {
 	return constCompletionIndex
 }
 
+// GetScope returns the namespace
+func (s *Const) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+// IsScopeSymbol implements HasScope
+func (s *Const) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Const) Serialise(e *storage.Encoder) {
 	e.WriteLocation(s.location)
 	e.WriteString(s.description)
diff --git a/analysis/define.go b/analysis/define.go
index 1db9bbd..ab31bef 100644
--- a/analysis/define.go
+++ b/analysis/define.go
@@ -123,6 +123,16 @@ func (s *Define) GetIndexCollection() string {
 	return defineCompletionIndex
 }
 
+// GetScope returns the namespace
+func (s *Define) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+// IsScopeSymbol implements HasScope
+func (s *Define) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Define) Serialise(e *storage.Encoder) {
 	e.WriteLocation(s.location)
 	e.WriteString(s.description)
diff --git a/analysis/store.go b/analysis/store.go
index 16ab41d..71bc3ad 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -180,7 +180,9 @@ func NewSearchOptions() SearchOptions {
 
 // WithPredicate adds a predicate into the search option
 func (s SearchOptions) WithPredicate(predicate func(s Symbol) bool) SearchOptions {
-	s.predicates = append(s.predicates, predicate)
+	predicates := make([]func(s Symbol) bool, 0, len(s.predicates)+1)
+	predicates = append(predicates, s.predicates...)
+	s.predicates = append(predicates, predicate)
 	return s
 }
 
@@ -717,6 +719,13 @@ func namespacePredicate(scope string) func(s Symbol) bool {
 	}
 }
 
+func nestedNamespacePredicate(scope string) func(s Symbol) bool {
+	return func(s Symbol) bool {
+		v, ok := s.(HasScope)
+		return scope == "" || scope == "\\" || ok && strings.HasPrefix(v.GetScope()+"\\", scope+"\\")
+	}
+}
+
 // SearchNamespaces searches namespaces with the given keyword, and keyword can contain
 // a namespace scope, e.g. Namespace1\NestedNams
 func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]string, SearchResult) {
@@ -779,15 +788,7 @@ func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onData
 func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	classes := []*Class{}
-	if scope != "" {
-		if keyword != "" {
-			options = options.WithPredicate(func(s Symbol) bool {
-				if v, ok := s.(*Class); ok {
-					return strings.Contains(v.Name.GetOriginal(), keyword)
-				}
-				return false
-			})
-		}
+	if scope != "" && keyword == "" {
 		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
 			if isSymbolValid(class, options) {
 				classes = append(classes, class)
@@ -799,7 +800,8 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 		})
 		return classes, SearchResult{true}
 	}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
+	// Classes of nested namespaces are included
+	options = options.WithPredicate(nestedNamespacePredicate(scope))
 	query := searchQuery{
 		collection: classCompletionIndex,
 		keyword:    keyword,
@@ -844,7 +846,7 @@ func (s *Store) GetInterfaces(name string) []*Interface {
 func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Interface, SearchResult) {
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	interfaces := []*Interface{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: interfaceCompletionIndex,
 		keyword:    keyword,
@@ -885,7 +887,7 @@ func (s *Store) GetTraits(name string) []*Trait {
 func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, SearchResult) {
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	traits := []*Trait{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: traitCompletionIndex,
 		keyword:    keyword,
@@ -926,7 +928,7 @@ func (s *Store) GetFunctions(name string) []*Function {
 func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Function, SearchResult) {
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	functions := []*Function{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: functionCompletionIndex,
 		keyword:    keyword,
@@ -968,7 +970,9 @@ func (s *Store) GetConsts(name string) []*Const {
 
 // SearchConsts uses completion index to search constants matching the given keyword
 func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
 	consts := []*Const{}
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: constCompletionIndex,
 		keyword:    keyword,
@@ -1006,7 +1010,9 @@ func (s *Store) GetDefines(name string) []*Define {
 
 // SearchDefines uses completion index to search `define()`s matching the given keyword
 func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
 	defines := []*Define{}
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: defineCompletionIndex,
 		keyword:    keyword,
@@ -1065,7 +1071,7 @@ func (s *Store) SearchMethods(scope string, keyword string, options SearchOption
 	}
 
 	methods := []*Method{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: methodCompletionIndex,
 		keyword:    keyword,
@@ -1129,7 +1135,7 @@ func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOp
 	}
 
 	classConsts := []*ClassConst{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: classConstCompletionIndex,
 		keyword:    keyword,
@@ -1184,7 +1190,7 @@ func (s *Store) SearchProperties(scope string, keyword string, options SearchOpt
 	}
 
 	properties := []*Property{}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
+	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: propertyCompletionIndex,
 		keyword:    keyword,
diff --git a/analysis/trait.go b/analysis/trait.go
index 6ceb9d0..6b95b6a 100644
--- a/analysis/trait.go
+++ b/analysis/trait.go
@@ -86,6 +86,16 @@ func (s *Trait) GetIndexCollection() string {
 	return traitCompletionIndex
 }
 
+// GetScope returns the namespace
+func (s *Trait) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+// IsScopeSymbol implements HasScope
+func (s *Trait) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Trait) Serialise(e *storage.Encoder) {
 	e.WriteLocation(s.location)
 	s.Name.Write(e)
-- 
2.43.0


From 7228837fa091b682ab6ec9539ce1038d5cf5014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:21 +0000
Subject: [PATCH 17/57] fix: a result limit counts for each kind by itself and
 marks the list incomplete whenever it cuts

---
 analysis/store.go          | 59 ++++++++++++++++++++++++++++++++++----
 internal/lsp/completion.go | 25 +++++++++-------
 2 files changed, 67 insertions(+), 17 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 71bc3ad..661bf34 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -170,6 +170,7 @@ func (d *symbolDeletor) Delete(batch storage.Batch) {
 // symbols
 type SearchOptions struct {
 	predicates []func(s Symbol) bool
+	limit      int
 	limiter    func() bool
 }
 
@@ -188,7 +189,16 @@ func (s SearchOptions) WithPredicate(predicate func(s Symbol) bool) SearchOption
 
 // WithLimit adds a limiter into the search option
 func (s SearchOptions) WithLimit(limit int) SearchOptions {
-	count := 0
+	s.limit = limit
+	return s.restart()
+}
+
+// restart begins counting anew, every search has the whole limit for itself
+func (s SearchOptions) restart() SearchOptions {
+	if s.limit <= 0 {
+		return s
+	}
+	count, limit := 0, s.limit
 	s.limiter = func() bool {
 		count++
 		return count >= limit
@@ -729,6 +739,7 @@ func nestedNamespacePredicate(scope string) func(s Symbol) bool {
 // SearchNamespaces searches namespaces with the given keyword, and keyword can contain
 // a namespace scope, e.g. Namespace1\NestedNams
 func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]string, SearchResult) {
+	options = options.restart()
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	// In namespace normally there isn't \ but somehow it has ignores in because
 	// namespaces are not indexed with \
@@ -750,6 +761,7 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 			if !unique.Has(namespace) {
 				unique.Put(namespace)
 				namespaces = append(namespaces, namespace)
+				return onDataResult{options.IsLimitReached()}
 			}
 			return onDataResult{false}
 		},
@@ -786,19 +798,22 @@ func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onData
 // SearchClasses uses the completion index to search for classes with the given keyword.
 // `keyword` can contain scope \Namespace1\Cl
 func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
+	options = options.restart()
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	classes := []*Class{}
 	if scope != "" && keyword == "" {
+		isComplete := true
 		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
 			if isSymbolValid(class, options) {
 				classes = append(classes, class)
 				if options.IsLimitReached() {
+					isComplete = false
 					return onDataResult{true}
 				}
 			}
 			return onDataResult{false}
 		})
-		return classes, SearchResult{true}
+		return classes, SearchResult{isComplete}
 	}
 	// Classes of nested namespaces are included
 	options = options.WithPredicate(nestedNamespacePredicate(scope))
@@ -844,6 +859,7 @@ func (s *Store) GetInterfaces(name string) []*Interface {
 // SearchInterfaces uses completion index to search for interfaces with the given keyword.
 // `keyword` can contain scope \Namespace1\Cl
 func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Interface, SearchResult) {
+	options = options.restart()
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	interfaces := []*Interface{}
 	options = options.WithPredicate(namespacePredicate(scope))
@@ -885,6 +901,7 @@ func (s *Store) GetTraits(name string) []*Trait {
 // SearchTraits uses completion index to search traits matching the given keyword.
 // `keyword` can contain scope
 func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, SearchResult) {
+	options = options.restart()
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	traits := []*Trait{}
 	options = options.WithPredicate(namespacePredicate(scope))
@@ -926,6 +943,7 @@ func (s *Store) GetFunctions(name string) []*Function {
 // SearchFunctions uses the completion index to search functions matching the given keyword.
 // `keyword` can contain scope
 func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Function, SearchResult) {
+	options = options.restart()
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	functions := []*Function{}
 	options = options.WithPredicate(namespacePredicate(scope))
@@ -970,6 +988,7 @@ func (s *Store) GetConsts(name string) []*Const {
 
 // SearchConsts uses completion index to search constants matching the given keyword
 func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
+	options = options.restart()
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	consts := []*Const{}
 	options = options.WithPredicate(namespacePredicate(scope))
@@ -1010,6 +1029,7 @@ func (s *Store) GetDefines(name string) []*Define {
 
 // SearchDefines uses completion index to search `define()`s matching the given keyword
 func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
+	options = options.restart()
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	defines := []*Define{}
 	options = options.WithPredicate(namespacePredicate(scope))
@@ -1066,6 +1086,7 @@ func (s *Store) GetAllMethods(scope string) []*Method {
 // index will scan through all the methods in the store and compare its scope.
 // If the scope is "" all methods matching will be returned.
 func (s *Store) SearchMethods(scope string, keyword string, options SearchOptions) ([]*Method, SearchResult) {
+	options = options.restart()
 	if keyword == "" {
 		return []*Method{}, SearchResult{false}
 	}
@@ -1130,11 +1151,24 @@ func (s *Store) GetAllClassConsts(scope string) []*ClassConst {
 // If the scope is empty all matched class constants are returned.
 // The word class is used loosely in here, which means it can be classes/interfaces/traits
 func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOptions) ([]*ClassConst, SearchResult) {
+	options = options.restart()
+	classConsts := []*ClassConst{}
 	if keyword == "" {
-		return s.GetAllClassConsts(scope), SearchResult{true}
+		if scope == "" {
+			return classConsts, SearchResult{false}
+		}
+		for _, classConst := range s.GetAllClassConsts(scope) {
+			if !isSymbolValid(classConst, options) {
+				continue
+			}
+			classConsts = append(classConsts, classConst)
+			if options.IsLimitReached() {
+				return classConsts, SearchResult{false}
+			}
+		}
+		return classConsts, SearchResult{true}
 	}
 
-	classConsts := []*ClassConst{}
 	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: classConstCompletionIndex,
@@ -1185,11 +1219,24 @@ func (s *Store) GetAllProperties(scope string) []*Property {
 // SearchProperties uses completion index to search properties matching the given scope
 // and name. If the scope is "", this will forward to `GetAllProperties`, and ignore keyword
 func (s *Store) SearchProperties(scope string, keyword string, options SearchOptions) ([]*Property, SearchResult) {
+	options = options.restart()
+	properties := []*Property{}
 	if keyword == "" {
-		return s.GetAllProperties(scope), SearchResult{true}
+		if scope == "" {
+			return properties, SearchResult{false}
+		}
+		for _, property := range s.GetAllProperties(scope) {
+			if !isSymbolValid(property, options) {
+				continue
+			}
+			properties = append(properties, property)
+			if options.IsLimitReached() {
+				return properties, SearchResult{false}
+			}
+		}
+		return properties, SearchResult{true}
 	}
 
-	properties := []*Property{}
 	options = options.WithPredicate(namespacePredicate(scope))
 	query := searchQuery{
 		collection: propertyCompletionIndex,
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 7e8c5b9..5249c6c 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -225,13 +225,13 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	consts, searchResult := store.SearchConsts(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -247,7 +247,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	defines, searchResult := store.SearchDefines(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -264,7 +264,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	functions, searchResult := store.SearchFunctions(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
 		insertText, textFormat, command := hasParamsInsertText(function, label)
@@ -284,7 +284,8 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	if analysis.IsFQN(word) {
-		namespaces, _ := store.SearchNamespaces(word, opts)
+		namespaces, searchResult := store.SearchNamespaces(word, opts)
+		completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 		for _, ns := range namespaces {
 			completionList.Items = append(completionList.Items, namespaceToCompletionItem(ns, word))
 		}
@@ -434,7 +435,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		})
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -450,7 +451,8 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		})
 	}
 	if analysis.IsFQN(word) {
-		namespaces, _ := store.SearchNamespaces(word, opts)
+		namespaces, searchResult := store.SearchNamespaces(word, opts)
+		completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 		for _, ns := range namespaces {
 			completionList.Items = append(completionList.Items, namespaceToCompletionItem(ns, word))
 		}
@@ -491,22 +493,23 @@ func useCompletion(ctx *completionContext, word string) *protocol.CompletionList
 	}
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
-	namespaces, _ := store.SearchNamespaces(t.GetFQN(), opts)
+	namespaces, searchResult := store.SearchNamespaces(t.GetFQN(), opts)
+	completionList.IsIncomplete = !searchResult.IsComplete
 	for _, ns := range namespaces {
 		completionList.Items = append(completionList.Items, namespaceToCompletionItem(ns, word))
 	}
 	classes, searchResult := store.SearchClasses(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, class := range classes {
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, class.Name.GetOriginal(), nil))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, intf.Name.GetOriginal(), nil))
 	}
 	traits, searchResult := store.SearchTraits(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, trait := range traits {
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, trait.Name.GetOriginal(), nil))
 	}
-- 
2.43.0


From 1d00b7bf827fc457f54f82eed0a60e64b0f15733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 18/57] fix: completion offers a candidate once even if several
 files declare it

---
 internal/lsp/completion.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 5249c6c..b17318f 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -175,9 +175,31 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	case *analysis.TypeDeclaration:
 		completionList = typeCompletion(completionCtx, s.Name)
 	}
+	if completionList != nil {
+		completionList.Items = uniqueItems(completionList.Items)
+	}
 	return completionList, nil
 }
 
+// uniqueItems keeps the first of items which the user cannot tell apart, e.g.
+// those of a symbol declared in several files
+func uniqueItems(items []protocol.CompletionItem) []protocol.CompletionItem {
+	type appearance struct {
+		kind                      protocol.CompletionItemKind
+		label, insertText, detail string
+	}
+	seen := map[appearance]bool{}
+	unique := items[:0]
+	for _, item := range items {
+		a := appearance{item.Kind, item.Label, item.InsertText, item.Detail}
+		if !seen[a] {
+			seen[a] = true
+			unique = append(unique, item)
+		}
+	}
+	return unique
+}
+
 func variableCompletion(ctx *completionContext, resolveCtx analysis.ResolveContext, word string) *protocol.CompletionList {
 	varTable := ctx.doc.GetVariableTableAt(ctx.pos)
 	completionList := &protocol.CompletionList{
-- 
2.43.0


From 37b113ad129466a1c236efb0b882cfea90075207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 19/57] fix: names resolve by PHP's rules for qualified, fully
 qualified, relative and imported names

---
 analysis/importTable.go | 119 ++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 65 deletions(-)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index dfcd52c..807da7d 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -73,92 +73,75 @@ func (i *ImportTable) setNamespace(namespace *Namespace) {
 	i.namespace = namespace
 }
 
-func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
+// resolve gives the fully qualified name of a name which does not depend on what exists, i.e.
+// all names except unqualified functions and constants which are not imported. aliases are the
+// imports of unqualified names, qualified names are always relative to imported namespaces
+func (i ImportTable) resolve(name TypeString, aliases map[string]*importItem) (string, bool) {
+	fqn := name.GetFQN()
+	if IsFQN(fqn) {
+		return fqn, true
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
-	if item, ok := i.classes[firstPart]; ok {
-		fqn := "\\" + item.name
-		if len(parts) > 0 {
-			fqn += "\\" + strings.Join(parts, "\\")
+	if len(parts) > 0 {
+		if strings.EqualFold(firstPart, "namespace") {
+			relative := NewTypeString(strings.Join(parts, "\\"))
+			relative.SetNamespace(i.GetNamespace())
+			return relative.GetFQN(), true
 		}
-		name.SetFQN(fqn)
-		i.useClass(firstPart)
-	} else {
-		name.SetNamespace(i.GetNamespace())
+		aliases = i.classes
+	}
+	if item, ok := aliases[firstPart]; ok {
+		return "\\" + strings.Join(append([]string{item.name}, parts...), "\\"), true
 	}
-	return name.GetFQN()
+	name.SetNamespace(i.GetNamespace())
+	return name.GetFQN(), len(parts) > 0
 }
 
-func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.functions
-	if len(parts) > 0 {
-		aliasTable = i.classes
+func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
+	if !IsFQN(name.GetFQN()) {
+		firstPart, _ := name.GetFirstAndRestParts()
+		i.useClass(firstPart)
 	}
+	fqn, _ := i.resolve(name, i.classes)
+	return fqn
+}
 
-	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	functions := q.GetFunctions(fqn)
-	if len(functions) > 0 {
+func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
+	fqn, ok := i.resolve(name, i.functions)
+	if ok || len(q.GetFunctions(fqn)) > 0 {
 		return fqn
 	}
-	name.SetNamespace(i.GetNamespace())
-	return name.GetFQN()
+	global := "\\" + name.GetFQN()
+	if len(q.GetFunctions(global)) > 0 {
+		return global
+	}
+	return fqn
 }
 
+// FunctionPossibleFQNs returns the functions which the name can refer to, the preferred
+// one first
 func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.functions
-	if len(parts) > 0 {
-		aliasTable = i.classes
-	}
-	results := []string{}
-	if item, ok := aliasTable[firstPart]; ok {
-		results = append(results, "\\"+item.name)
-		return results
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	results = append(results, fqn)
-	name.SetNamespace(i.GetNamespace())
-	if name.GetFQN() != fqn {
-		results = append(results, name.GetFQN())
+	fqn, ok := i.resolve(name, i.functions)
+	results := []string{fqn}
+	if global := "\\" + name.GetFQN(); !ok && global != fqn {
+		results = append(results, global)
 	}
 	return results
 }
 
 func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.constants
-	if len(parts) > 0 {
-		aliasTable = i.classes
+	fqn, ok := i.resolve(name, i.constants)
+	exists := func(fqn string) bool {
+		return len(q.GetConsts(fqn)) > 0 || len(q.GetDefines(fqn)) > 0
 	}
-
-	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	constants := q.GetConsts(fqn)
-	if len(constants) > 0 {
+	if ok || exists(fqn) {
 		return fqn
 	}
-	// TODO: Defines do not have implicit namespace except
-	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
-	defines := q.GetDefines(fqn)
-	if len(defines) > 0 {
-		return fqn
+	global := "\\" + name.GetFQN()
+	if exists(global) {
+		return global
 	}
-	name.SetNamespace(i.GetNamespace())
-	return name.GetFQN()
+	return fqn
 }
 
 func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
@@ -240,6 +223,9 @@ func (i *ImportTable) useConstant(name string) {
 }
 
 func (i *ImportTable) useFunctionOrClass(name TypeString) {
+	if IsFQN(name.GetFQN()) {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
@@ -249,6 +235,9 @@ func (i *ImportTable) useFunctionOrClass(name TypeString) {
 }
 
 func (i *ImportTable) useConstOrClass(name TypeString) {
+	if IsFQN(name.GetFQN()) {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
-- 
2.43.0


From 6b2cf07a46ca2c28e890abd190df63bd6e6fdca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:03 +0000
Subject: [PATCH 20/57] fix: mixed group uses import functions and constants,
 with their own ranges

---
 analysis/use.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/analysis/use.go b/analysis/use.go
index e1948eb..913a866 100644
--- a/analysis/use.go
+++ b/analysis/use.go
@@ -95,20 +95,28 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 
 				name := ""
 				alias := ""
+				clauseType := useType
 				child = traverser.Advance()
 				for child != nil {
-					if p, ok = child.(*phrase.Phrase); ok {
-						switch p.Type {
+					if c, ok := child.(*phrase.Phrase); ok {
+						switch c.Type {
 						case phrase.NamespaceName:
-							name = document.getPhraseText(p)
+							name = document.getPhraseText(c)
 						case phrase.NamespaceAliasingClause:
-							alias = getAliasFromNode(document, p)
+							alias = getAliasFromNode(document, c)
+						}
+					} else if t, ok := child.(*lexer.Token); ok {
+						switch t.Type {
+						case lexer.Function:
+							clauseType = UseFunction
+						case lexer.Const:
+							clauseType = UseConst
 						}
 					}
 					child = traverser.Advance()
 				}
 				name = prefix + "\\" + name
-				addUseToImportTable(document, useType, alias, name, document.NodeRange(p))
+				addUseToImportTable(document, clauseType, alias, name, document.NodeRange(p))
 
 				traverser, err = traverser.Ascend()
 				if err != nil {
-- 
2.43.0


From 2f9d0ffcc53975219014cec36fea1103d70f5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:03 +0000
Subject: [PATCH 21/57] fix: calls resolve by the namespace they are in and
 define() ignores namespaces

---
 analysis/define.go       | 5 ++---
 analysis/functionCall.go | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/analysis/define.go b/analysis/define.go
index ab31bef..2dedd60 100644
--- a/analysis/define.go
+++ b/analysis/define.go
@@ -45,7 +45,8 @@ func newDefine(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		}
 		child = traverser.Advance()
 	}
-	define.Name.SetNamespace(document.currImportTable().GetNamespace())
+	// The name given to define() is always fully qualified
+	define.Name.SetNamespace("")
 	document.popBlock()
 	return nil
 }
@@ -99,8 +100,6 @@ func (s *Define) ResolveToHasParams(ctx ResolveContext) []HasParams {
 	functions := []HasParams{}
 	typeString := NewTypeString("\\define")
 	q := ctx.query
-	document := ctx.document
-	typeString.SetFQN(document.currImportTable().GetFunctionReferenceFQN(q, typeString))
 	for _, function := range q.GetFunctions(typeString.GetFQN()) {
 		functions = append(functions, function)
 	}
diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 554803e..c7797a5 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -79,7 +79,7 @@ func (s *FunctionCall) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	s.hasResolved = true
 	typeString := NewTypeString(s.Name)
-	functions := q.GetFunctions(document.currImportTable().GetFunctionReferenceFQN(ctx.query, typeString))
+	functions := q.GetFunctions(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(ctx.query, typeString))
 	for _, function := range functions {
 		s.Type.merge(function.returnTypes)
 	}
@@ -94,7 +94,7 @@ func (s *FunctionCall) ResolveToHasParams(ctx ResolveContext) []HasParams {
 	typeString := NewTypeString(s.Name)
 	q := ctx.query
 	document := ctx.document
-	typeString.SetFQN(document.currImportTable().GetFunctionReferenceFQN(q, typeString))
+	typeString.SetFQN(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(q, typeString))
 	for _, function := range q.GetFunctions(typeString.GetFQN()) {
 		functions = append(functions, function)
 	}
-- 
2.43.0


From 42a59ed22ac94fe9d9305b89c091078d6bb742d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:03 +0000
Subject: [PATCH 22/57] fix: references of a function do not include those of
 its namesake

---
 internal/lsp/reference.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 443b5df..1ca874f 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -2,6 +2,7 @@ package lsp
 
 import (
 	"context"
+	"strings"
 
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis"
@@ -24,6 +25,17 @@ func classScopeFQNAt(document *analysis.Document, pos protocol.Position) string
 	return scopeFQN
 }
 
+// calledFunction keeps the first of the references that is an existing function, because
+// an unqualified call only falls back to the global function if there is no namespaced one
+func calledFunction(store *analysis.Store, refs []string) []string {
+	for i, ref := range refs {
+		if i == len(refs)-1 || len(store.GetFunctions(strings.TrimSuffix(ref, "()"))) > 0 {
+			return refs[i : i+1]
+		}
+	}
+	return refs
+}
+
 func (s *Server) references(ctx context.Context, params *protocol.ReferenceParams) ([]protocol.Location, error) {
 	results := []protocol.Location{}
 	uri := params.TextDocumentPositionParams.TextDocument.URI
@@ -42,6 +54,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	fallbackHandler := func() {
 		sym := document.HasTypesAtPos(pos)
 		refs := analysis.SymToRefs(document, sym)
+		if _, ok := sym.(*analysis.FunctionCall); ok {
+			refs = calledFunction(store, refs)
+		}
 		for _, ref := range refs {
 			results = append(results, store.GetReferences(ref)...)
 		}
@@ -75,11 +90,8 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	case phrase.FunctionDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		refs := document.ImportTableAtPos(document.NodeRange(nameToken).Start).FunctionPossibleFQNs(name)
-		for _, ref := range refs {
-			ref += "()"
-			results = append(results, store.GetReferences(ref)...)
-		}
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		results = append(results, store.GetReferences(name.GetFQN()+"()")...)
 	default:
 		fallbackHandler()
 	}
-- 
2.43.0


From 3e49dd7942e6892ba0c0559ffee807647a201185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 23/57] fix: an inserted use declaration is indented by blanks
 only

---
 analysis/insertUse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analysis/insertUse.go b/analysis/insertUse.go
index a24948a..dc2c1af 100644
--- a/analysis/insertUse.go
+++ b/analysis/insertUse.go
@@ -1,6 +1,8 @@
 package analysis
 
 import (
+	"bytes"
+
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -110,7 +112,9 @@ func getIndentation(document *Document, node *phrase.Phrase) string {
 		Line:      tokenStartPosition.Line,
 		Character: 0,
 	})
-	return string(document.GetText()[startOffset:firstToken.Offset])
+	// The node does not have to be the first on its line
+	line := document.GetText()[startOffset:firstToken.Offset]
+	return string(line[:len(line)-len(bytes.TrimLeft(line, " \t"))])
 }
 
 func getNewLine(document *Document, node *phrase.Phrase) string {
-- 
2.43.0


From 0b170a86fa89f1a3674e787722fb8a35312fc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 24/57] fix: interfaces extend the interfaces their names
 resolve to

---
 analysis/interface.go | 19 +++++++++++++++++--
 analysis/store.go     |  3 +++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/analysis/interface.go b/analysis/interface.go
index 209dc85..5d69b6b 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -85,8 +85,10 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 			}
 			child = traverser.Advance()
 			for child != nil {
-				if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.QualifiedName {
-					s.Extends = append(s.Extends, transformQualifiedName(p, document))
+				if p, ok := child.(*phrase.Phrase); ok && (p.Type == phrase.QualifiedName || p.Type == phrase.FullyQualifiedName) {
+					extend := transformQualifiedName(p, document)
+					document.currImportTable().GetClassReferenceFQN(extend) // marks its import as used
+					s.Extends = append(s.Extends, extend)
 				}
 				child = traverser.Advance()
 			}
@@ -96,6 +98,19 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 	}
 }
 
+// withResolvedExtends returns the interface with the fully qualified names of the interfaces
+// it extends
+func (s *Interface) withResolvedExtends(document *Document) *Interface {
+	resolved := *s
+	resolved.Extends = nil
+	importTable := document.ImportTableAtPos(s.location.Range.Start)
+	for _, extend := range s.Extends {
+		extend.SetFQN(importTable.GetClassReferenceFQN(extend))
+		resolved.Extends = append(resolved.Extends, extend)
+	}
+	return &resolved
+}
+
 func (s *Interface) GetLocation() protocol.Location {
 	return s.location
 }
diff --git a/analysis/store.go b/analysis/store.go
index 661bf34..5670aa9 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -634,6 +634,9 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 			if key == "" {
 				return
 			}
+			if theInterface, ok := ser.(*Interface); ok {
+				ser = theInterface.withResolvedExtends(document)
+			}
 			entry := newEntry(ser.GetCollection(), key)
 			ser.Serialise(entry.e)
 			writeEntry(batch, entry)
-- 
2.43.0


From 52e7c0fff9c9cae88e3a0700d3c3823693146488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 25/57] fix: types that are returned, nullable or of properties
 count as uses

---
 analysis/document.go | 34 ++++++++++++++++++++++++++++++++++
 analysis/store.go    |  6 ++++++
 2 files changed, 40 insertions(+)

diff --git a/analysis/document.go b/analysis/document.go
index 192c714..3f3b500 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -34,6 +34,7 @@ type Document struct {
 	classStack         []Symbol
 	lastPhpDoc         *phpDocComment
 	hasChanges         bool
+	typeNames          []typeName
 	importTables       []*ImportTable
 	insertUseContext   *InsertUseContext
 
@@ -101,6 +102,39 @@ func (s *Document) Load() {
 	if len(s.importTables) == 0 {
 		s.pushImportTable(rootNode)
 	}
+	s.typeNames = nil
+	s.scanTypeNames(rootNode, false)
+}
+
+// typeName is a name of a type which no symbol of the document stands for: in a return type, the
+// type of a property, a nullable type or among the interfaces which an interface extends
+type typeName struct {
+	fqn      string
+	location protocol.Location
+}
+
+func (s *Document) scanTypeNames(node *phrase.Phrase, inType bool) {
+	switch node.Type {
+	case phrase.ReturnType, phrase.InterfaceBaseClause:
+		inType = true
+	case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
+		if inType {
+			location := s.GetNodeLocation(node)
+			s.typeNames = append(s.typeNames, typeName{
+				fqn:      s.ImportTableAtPos(location.Range.Start).GetClassReferenceFQN(transformQualifiedName(node, s)),
+				location: location,
+			})
+		}
+		return
+	}
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Question && node.Type == phrase.TypeDeclaration {
+			inType = true
+		}
+		if p, ok := child.(*phrase.Phrase); ok {
+			s.scanTypeNames(p, inType || node.Type == phrase.PropertyDeclaration && p.Type == phrase.TypeDeclaration)
+		}
+	}
 }
 
 // GetURI is a getter for uri
diff --git a/analysis/store.go b/analysis/store.go
index 5670aa9..696ca22 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -672,6 +672,12 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 			}
 		}
 	})
+	for _, name := range document.typeNames {
+		referenceEntryInfos = append(referenceEntryInfos, entryInfo{
+			ref: name.fqn,
+			r:   name.location.Range,
+		})
+	}
 	s.indexDocumentSymbols(document, batch, documentSymbols)
 	s.refIndex.index(s, document, batch, referenceEntryInfos)
 }
-- 
2.43.0


From a998181ac7015d4d052df3de084b044f549c5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 26/57] fix: a doc comment documents what follows it on its
 line, and not the next line

---
 analysis/document.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 3f3b500..7d4ea92 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"bytes"
 	"crypto/sha1"
 	"encoding/json"
 	"regexp"
@@ -665,10 +666,24 @@ func (s *Document) getValidPhpDoc(location protocol.Location) *phpDocComment {
 	}
 	endOfPhpDoc := s.lastPhpDoc.GetLocation().Range.End
 	start := location.Range.Start
-	if endOfPhpDoc.Line < start.Line && endOfPhpDoc.Line == (start.Line-1) {
-		return s.lastPhpDoc
+	if endOfPhpDoc.Line != start.Line && endOfPhpDoc.Line != start.Line-1 {
+		return nil
 	}
-	return nil
+	// What follows the comment on its line is what it documents
+	from, to := s.OffsetAtPosition(endOfPhpDoc), s.OffsetAtPosition(start)
+	if endOfPhpDoc.Line != start.Line {
+		to = s.OffsetAtPosition(protocol.Position{Line: start.Line})
+	}
+	if from > to {
+		return nil
+	}
+	following := bytes.TrimSpace(s.GetText()[from:to])
+	isComment := endOfPhpDoc.Line != start.Line && (bytes.HasPrefix(following, []byte("//")) ||
+		bytes.HasPrefix(following, []byte("#")) || bytes.HasPrefix(following, []byte("/*")))
+	if !isComment && bytes.ContainsAny(following, ";{}") {
+		return nil
+	}
+	return s.lastPhpDoc
 }
 
 func (s *Document) getGlobalVariable(name string) *GlobalVariable {
-- 
2.43.0


From ecde7536476b3480047053916b3e274d0543a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:14 +0000
Subject: [PATCH 27/57] fix: the name in a trait's declaration is among its
 references

---
 analysis/document.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 7d4ea92..f4f3572 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -107,8 +107,9 @@ func (s *Document) Load() {
 	s.scanTypeNames(rootNode, false)
 }
 
-// typeName is a name of a type which no symbol of the document stands for: in a return type, the
-// type of a property, a nullable type or among the interfaces which an interface extends
+// typeName is a name of a type which no symbol of the document refers to: in a return type, the
+// type of a property, a nullable type, among the interfaces which an interface extends or of a
+// declared trait
 type typeName struct {
 	fqn      string
 	location protocol.Location
@@ -129,6 +130,12 @@ func (s *Document) scanTypeNames(node *phrase.Phrase, inType bool) {
 		return
 	}
 	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Name && node.Type == phrase.TraitDeclarationHeader {
+			name := NewTypeString(s.getTokenText(t))
+			location := s.GetNodeLocation(t)
+			name.SetNamespace(s.ImportTableAtPos(location.Range.Start).GetNamespace())
+			s.typeNames = append(s.typeNames, typeName{fqn: name.GetFQN(), location: location})
+		}
 		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Question && node.Type == phrase.TypeDeclaration {
 			inType = true
 		}
-- 
2.43.0


From 07887b27a7374e2af84ffe2562a99e88a806ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:58 +0000
Subject: [PATCH 28/57] fix: references are found at the first character of a
 declared name too

---
 internal/lsp/reference.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 1ca874f..f0e162f 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"strings"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
@@ -36,6 +37,10 @@ func calledFunction(store *analysis.Store, refs []string) []string {
 	return refs
 }
 
+func isNameToken(t lexer.Token) bool {
+	return t.Type == lexer.Name || t.Type == lexer.VariableName
+}
+
 func (s *Server) references(ctx context.Context, params *protocol.ReferenceParams) ([]protocol.Location, error) {
 	results := []protocol.Location{}
 	uri := params.TextDocumentPositionParams.TextDocument.URI
@@ -48,7 +53,14 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 		return nil, nil
 	}
 	pos := params.TextDocumentPositionParams.Position
-	nodes := document.NodeSpineAt(document.OffsetAtPosition(pos))
+	offset := document.OffsetAtPosition(pos)
+	nodes := document.NodeSpineAt(offset)
+	if !isNameToken(nodes.Token()) {
+		// The position might be the start of a name
+		if next := document.NodeSpineAt(offset + 1); isNameToken(next.Token()) {
+			nodes = next
+		}
+	}
 	// log.Printf("Reference: %v %s", pos, nodes)
 	parent := nodes.Parent()
 	fallbackHandler := func() {
-- 
2.43.0


From fb7235058798bfa249d241cd55d2c9f845c0c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 29/57] fix: keep the CRLF line endings of the files that had
 them

Earlier fixes had rewritten these four files with LF endings; the content is the same.
---
 analysis/completionIndex.go    |  304 ++--
 analysis/store.go              | 2632 ++++++++++++++++----------------
 internal/lsp/sync.go           |  204 +--
 internal/lsp/workspaceStore.go |  670 ++++----
 4 files changed, 1905 insertions(+), 1905 deletions(-)

diff --git a/analysis/completionIndex.go b/analysis/completionIndex.go
index aeabcd4..7d6545c 100644
--- a/analysis/completionIndex.go
+++ b/analysis/completionIndex.go
@@ -1,152 +1,152 @@
-package analysis
-
-import (
-	"strings"
-
-	"github.com/john-nguyen09/phpintel/analysis/storage"
-	"github.com/john-nguyen09/phpintel/analysis/wordtokeniser"
-	"github.com/junegunn/fzf/src/algo"
-	"github.com/junegunn/fzf/src/util"
-	"github.com/zyedidia/generic/mapset"
-)
-
-// CompletionValue holds references to uri and name
-type CompletionValue string
-
-type onDataResult struct {
-	shouldStop bool
-}
-
-type searchQuery struct {
-	collection string
-	keyword    string
-	onData     func(CompletionValue) onDataResult
-}
-
-type SearchResult struct {
-	IsComplete bool
-}
-
-func isMatch(str string, pattern []rune) (bool, int) {
-	chars := util.ToChars([]byte(str))
-	result, _ := algo.FuzzyMatchV2(false, true, true, &chars, pattern, false, nil)
-	return result.Score > 0, result.Score
-}
-
-// Serialise writes the CompletionValue
-func (cv CompletionValue) Serialise(e *storage.Encoder) {
-	e.WriteString(string(cv))
-}
-
-func readCompletionValue(d *storage.Decoder) CompletionValue {
-	return CompletionValue(d.ReadString())
-}
-
-func createCompletionEntries(uri string, indexable NameIndexable, symbolKey string) []*entry {
-	entries := []*entry{}
-	keys := getCompletionKeys(uri, indexable, symbolKey)
-	completionKeys := [][]byte{}
-	for _, key := range keys {
-		entry := newEntry(indexable.GetIndexCollection(), key)
-		completionValue := CompletionValue(symbolKey)
-		completionValue.Serialise(entry.e)
-		entries = append(entries, entry)
-
-		completionKeys = append(completionKeys, entry.getKeyBytes())
-	}
-	entries = append(entries, createEntryToReferCompletionIndex(uri, symbolKey, completionKeys))
-	return entries
-}
-
-func createEntryToReferCompletionIndex(uri string, symbolKey string, keys [][]byte) *entry {
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
-	entry.e.WriteInt(len(keys))
-	for _, key := range keys {
-		entry.e.WriteBytes(key)
-	}
-	return entry
-}
-
-type completionIndexDeletor struct {
-	indexKeys map[string]bool
-	keys      map[string]bool
-}
-
-func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
-	indexKeys := map[string]bool{}
-	keys := map[string]bool{}
-	entry := newEntry(documentCompletionIndex, uri+KeySep)
-	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		keys[string(it.Key())] = true
-		d := storage.NewDecoder(it.Value())
-		len := d.ReadInt()
-		if len > 0 {
-			for i := 0; i < len; i++ {
-				key := d.ReadBytes()
-				indexKeys[string(key)] = true
-			}
-		}
-	})
-	return &completionIndexDeletor{indexKeys, keys}
-}
-
-func (d *completionIndexDeletor) MarkNotDelete(uri string, indexable NameIndexable, symbolKey string) {
-	keys := getCompletionKeys(uri, indexable, symbolKey)
-	for _, key := range keys {
-		entry := newEntry(indexable.GetIndexCollection(), key)
-		delete(d.indexKeys, string(entry.getKeyBytes()))
-	}
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
-	delete(d.keys, string(entry.getKeyBytes()))
-}
-
-func (d *completionIndexDeletor) Delete(b storage.Batch) {
-	for indexKey := range d.indexKeys {
-		b.Delete([]byte(indexKey))
-	}
-	for key := range d.keys {
-		b.Delete([]byte(key))
-	}
-}
-
-func getCompletionKeys(uri string, indexable NameIndexable, symbolKey string) []string {
-	tokens := wordtokeniser.Tokenise(indexable.GetIndexableName())
-	keys := []string{}
-	for _, token := range tokens {
-		token = strings.ToLower(token)
-		keys = append(keys, getCompletionKey(token, symbolKey))
-	}
-	return keys
-}
-
-func getCompletionKey(token string, symbolKey string) string {
-	return token + KeySep + symbolKey
-}
-
-func searchCompletions(db storage.DB, query searchQuery) SearchResult {
-	uniqueCompletionValues := mapset.New[CompletionValue]()
-	isComplete := true
-	words := wordtokeniser.Tokenise(query.keyword)
-	shouldStop := false
-	for _, word := range words {
-		if shouldStop {
-			break
-		}
-		word = strings.ToLower(word)
-		entry := newEntry(query.collection, word)
-		db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-			completionValue := readCompletionValue(storage.NewDecoder(it.Value()))
-			if uniqueCompletionValues.Has(completionValue) {
-				return
-			}
-			result := query.onData(completionValue)
-			uniqueCompletionValues.Put(completionValue)
-			if result.shouldStop {
-				isComplete = false
-				shouldStop = true
-				it.Stop()
-			}
-		})
-	}
-	return SearchResult{isComplete}
-}
+package analysis
+
+import (
+	"strings"
+
+	"github.com/john-nguyen09/phpintel/analysis/storage"
+	"github.com/john-nguyen09/phpintel/analysis/wordtokeniser"
+	"github.com/junegunn/fzf/src/algo"
+	"github.com/junegunn/fzf/src/util"
+	"github.com/zyedidia/generic/mapset"
+)
+
+// CompletionValue holds references to uri and name
+type CompletionValue string
+
+type onDataResult struct {
+	shouldStop bool
+}
+
+type searchQuery struct {
+	collection string
+	keyword    string
+	onData     func(CompletionValue) onDataResult
+}
+
+type SearchResult struct {
+	IsComplete bool
+}
+
+func isMatch(str string, pattern []rune) (bool, int) {
+	chars := util.ToChars([]byte(str))
+	result, _ := algo.FuzzyMatchV2(false, true, true, &chars, pattern, false, nil)
+	return result.Score > 0, result.Score
+}
+
+// Serialise writes the CompletionValue
+func (cv CompletionValue) Serialise(e *storage.Encoder) {
+	e.WriteString(string(cv))
+}
+
+func readCompletionValue(d *storage.Decoder) CompletionValue {
+	return CompletionValue(d.ReadString())
+}
+
+func createCompletionEntries(uri string, indexable NameIndexable, symbolKey string) []*entry {
+	entries := []*entry{}
+	keys := getCompletionKeys(uri, indexable, symbolKey)
+	completionKeys := [][]byte{}
+	for _, key := range keys {
+		entry := newEntry(indexable.GetIndexCollection(), key)
+		completionValue := CompletionValue(symbolKey)
+		completionValue.Serialise(entry.e)
+		entries = append(entries, entry)
+
+		completionKeys = append(completionKeys, entry.getKeyBytes())
+	}
+	entries = append(entries, createEntryToReferCompletionIndex(uri, symbolKey, completionKeys))
+	return entries
+}
+
+func createEntryToReferCompletionIndex(uri string, symbolKey string, keys [][]byte) *entry {
+	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+	entry.e.WriteInt(len(keys))
+	for _, key := range keys {
+		entry.e.WriteBytes(key)
+	}
+	return entry
+}
+
+type completionIndexDeletor struct {
+	indexKeys map[string]bool
+	keys      map[string]bool
+}
+
+func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
+	indexKeys := map[string]bool{}
+	keys := map[string]bool{}
+	entry := newEntry(documentCompletionIndex, uri+KeySep)
+	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		keys[string(it.Key())] = true
+		d := storage.NewDecoder(it.Value())
+		len := d.ReadInt()
+		if len > 0 {
+			for i := 0; i < len; i++ {
+				key := d.ReadBytes()
+				indexKeys[string(key)] = true
+			}
+		}
+	})
+	return &completionIndexDeletor{indexKeys, keys}
+}
+
+func (d *completionIndexDeletor) MarkNotDelete(uri string, indexable NameIndexable, symbolKey string) {
+	keys := getCompletionKeys(uri, indexable, symbolKey)
+	for _, key := range keys {
+		entry := newEntry(indexable.GetIndexCollection(), key)
+		delete(d.indexKeys, string(entry.getKeyBytes()))
+	}
+	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+	delete(d.keys, string(entry.getKeyBytes()))
+}
+
+func (d *completionIndexDeletor) Delete(b storage.Batch) {
+	for indexKey := range d.indexKeys {
+		b.Delete([]byte(indexKey))
+	}
+	for key := range d.keys {
+		b.Delete([]byte(key))
+	}
+}
+
+func getCompletionKeys(uri string, indexable NameIndexable, symbolKey string) []string {
+	tokens := wordtokeniser.Tokenise(indexable.GetIndexableName())
+	keys := []string{}
+	for _, token := range tokens {
+		token = strings.ToLower(token)
+		keys = append(keys, getCompletionKey(token, symbolKey))
+	}
+	return keys
+}
+
+func getCompletionKey(token string, symbolKey string) string {
+	return token + KeySep + symbolKey
+}
+
+func searchCompletions(db storage.DB, query searchQuery) SearchResult {
+	uniqueCompletionValues := mapset.New[CompletionValue]()
+	isComplete := true
+	words := wordtokeniser.Tokenise(query.keyword)
+	shouldStop := false
+	for _, word := range words {
+		if shouldStop {
+			break
+		}
+		word = strings.ToLower(word)
+		entry := newEntry(query.collection, word)
+		db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+			completionValue := readCompletionValue(storage.NewDecoder(it.Value()))
+			if uniqueCompletionValues.Has(completionValue) {
+				return
+			}
+			result := query.onData(completionValue)
+			uniqueCompletionValues.Put(completionValue)
+			if result.shouldStop {
+				isComplete = false
+				shouldStop = true
+				it.Stop()
+			}
+		})
+	}
+	return SearchResult{isComplete}
+}
diff --git a/analysis/store.go b/analysis/store.go
index 696ca22..4cb4819 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1,1316 +1,1316 @@
-package analysis
-
-import (
-	"bytes"
-	"context"
-	"errors"
-	"hash/fnv"
-	"io/fs"
-	"log"
-	"os"
-	"path"
-	"strconv"
-	"strings"
-	"sync"
-	"time"
-
-	"github.com/Masterminds/semver"
-	"github.com/bep/debounce"
-	"github.com/john-nguyen09/phpintel/analysis/storage"
-	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
-	"github.com/john-nguyen09/phpintel/stub"
-	"github.com/john-nguyen09/phpintel/util"
-	"github.com/john-nguyen09/pogreb"
-	cmap "github.com/orcaman/concurrent-map"
-	"github.com/zyedidia/generic/mapset"
-)
-
-const (
-	documentSymbolsCollection    string = "docSym"
-	classCollection              string = "cla"
-	interfaceCollection          string = "int"
-	traitCollection              string = "tra"
-	functionCollection           string = "fun"
-	constCollection              string = "con"
-	defineCollection             string = "def"
-	methodCollection             string = "met"
-	classConstCollection         string = "claCon"
-	propertyCollection           string = "pro"
-	globalVariableCollection     string = "gloVar"
-	documentCollection           string = "doc"
-
-	documentCompletionIndex   string = "docCom"
-	completionDataCollection  string = "comDatCol"
-	functionCompletionIndex   string = "funCom"
-	constCompletionIndex      string = "conCom"
-	defineCompletionIndex     string = "defCom"
-	classCompletionIndex      string = "claCom"
-	interfaceCompletionIndex  string = "intCom"
-	traitCompletionIndex      string = "traCom"
-	methodCompletionIndex     string = "metCom"
-	propertyCompletionIndex   string = "proCom"
-	classConstCompletionIndex string = "claConCom"
-	namespaceCompletionIndex  string = "namCom"
-
-	referenceIndexCollection string = "refInd"
-	documentReferenceIndex   string = "docRefInd"
-)
-
-var /* const */ versionKey = []byte("Version")
-
-// KeySep is the separator when constructing key
-const KeySep string = "\x00"
-
-type entry struct {
-	key []byte
-	e   *storage.Encoder
-}
-
-func newEntry(collection string, key string) *entry {
-	return &entry{
-		key: []byte(collection + KeySep + key),
-		e:   storage.NewEncoder(),
-	}
-}
-
-func (s *entry) getKeyBytes() []byte {
-	return s.key
-}
-
-func (s *entry) bytes() []byte {
-	return s.e.Bytes()
-}
-
-type documentSymbol struct {
-	collection    string
-	key           string
-	indexableName string
-}
-
-func (s documentSymbol) serialise(e *storage.Encoder) {
-	e.WriteString(s.collection)
-	e.WriteString(s.key)
-	e.WriteString(s.indexableName)
-}
-
-func readDocumentSymbol(d *storage.Decoder) documentSymbol {
-	return documentSymbol{
-		collection:    d.ReadString(),
-		key:           d.ReadString(),
-		indexableName: d.ReadString(),
-	}
-}
-
-// Store contains information about a given folder and functions
-// for querying symbols
-type Store struct {
-	uri       protocol.DocumentURI
-	FS        protocol.FS
-	db        storage.DB
-	comDB     storage.DB
-	greb      *pogreb.DB // not opened any more, symbols of documents are in db
-	refIndex  *referenceIndex
-	stubbers  []stub.Stubber
-	documents cmap.ConcurrentMap
-	// closeMu is held for writing only while closing, so that nothing is written
-	// to a closed database
-	closeMu  sync.RWMutex
-	isClosed bool
-	// documentMu serialises, by document, whatever indexes or forgets it
-	documentMu [64]sync.Mutex
-
-	syncedDocumentURIs cmap.ConcurrentMap
-	debouncers         cmap.ConcurrentMap
-	debouncedMu        sync.Mutex // makes what is debounced run one after another
-}
-
-func readDocumentSymbols(db storage.DB, e *entry, fn func(documentSymbol) bool) {
-	// A document which is not indexed yet has no entry
-	b, err := db.Get(e.getKeyBytes())
-	if err == nil && len(b) > 0 {
-		d := storage.NewDecoder(b)
-		count := d.ReadInt()
-		for i := 0; i < count; i++ {
-			symbol := readDocumentSymbol(d)
-			if fn(symbol) {
-				break
-			}
-		}
-	}
-}
-
-type symbolDeletor struct {
-	uri     string
-	symbols mapset.Set[string]
-}
-
-func newSymbolDeletor(db storage.DB, uri string) *symbolDeletor {
-	deletor := &symbolDeletor{
-		uri:     uri,
-		symbols: mapset.New[string](),
-	}
-	readDocumentSymbols(db, newEntry(documentSymbolsCollection, uri), func(symbol documentSymbol) bool {
-		deletor.symbols.Put(symbol.collection + KeySep + symbol.key)
-		return false
-	})
-	return deletor
-}
-
-func (d *symbolDeletor) MarkNotDelete(ser serialisable) {
-	d.symbols.Remove(ser.GetCollection() + KeySep + ser.GetKey())
-}
-
-func (d *symbolDeletor) Delete(batch storage.Batch) {
-	d.symbols.Each(func(key string) {
-		batch.Delete([]byte(key))
-	})
-}
-
-// SearchOptions contains predicates and limiter if applicable for searching
-// symbols
-type SearchOptions struct {
-	predicates []func(s Symbol) bool
-	limit      int
-	limiter    func() bool
-}
-
-// NewSearchOptions creates an empty search option
-func NewSearchOptions() SearchOptions {
-	return SearchOptions{}
-}
-
-// WithPredicate adds a predicate into the search option
-func (s SearchOptions) WithPredicate(predicate func(s Symbol) bool) SearchOptions {
-	predicates := make([]func(s Symbol) bool, 0, len(s.predicates)+1)
-	predicates = append(predicates, s.predicates...)
-	s.predicates = append(predicates, predicate)
-	return s
-}
-
-// WithLimit adds a limiter into the search option
-func (s SearchOptions) WithLimit(limit int) SearchOptions {
-	s.limit = limit
-	return s.restart()
-}
-
-// restart begins counting anew, every search has the whole limit for itself
-func (s SearchOptions) restart() SearchOptions {
-	if s.limit <= 0 {
-		return s
-	}
-	count, limit := 0, s.limit
-	s.limiter = func() bool {
-		count++
-		return count >= limit
-	}
-	return s
-}
-
-// IsLimitReached returns true if the limitter reaches the limit
-func (s SearchOptions) IsLimitReached() bool {
-	if s.limiter == nil {
-		return false
-	}
-	return s.limiter()
-}
-
-// NewStore creates a store with the disk storage or returns an error
-// if the disk storage cannot be created
-func NewStore(fileSystem protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
-	_, err := os.Stat(storePath)
-	if err != nil {
-		if os.IsNotExist(err) {
-			os.MkdirAll(storePath, os.ModePerm)
-		}
-	}
-	db, err := storage.NewGoLevelDB(storePath)
-	stubbers := stub.GetStubbers()
-	if err != nil {
-		return nil, err
-	}
-	comDB, err := storage.NewGoLevelDB(path.Join(storePath, "completion"))
-	if err != nil {
-		db.Close()
-		return nil, err
-	}
-	store := &Store{
-		uri:       uri,
-		FS:        fileSystem,
-		db:        db,
-		comDB:     comDB,
-		refIndex:  newReferenceIndex(db),
-		stubbers:  stubbers,
-		documents: cmap.New(),
-
-		syncedDocumentURIs: cmap.New(),
-		debouncers:         cmap.New(),
-	}
-	return store, nil
-}
-
-// Close triggers close on the fuzzy engine, and closes the disk storage
-func (s *Store) Close() {
-	s.closeMu.Lock()
-	defer s.closeMu.Unlock()
-	if s.isClosed {
-		return
-	}
-	s.db.Close()
-	s.comDB.Close()
-	if s.greb != nil {
-		s.greb.Close()
-	}
-	s.isClosed = true
-}
-
-// GetStoreVersion returns the version of the disk storage or v0.0.0 if
-// the version is missing from the disk
-func (s *Store) GetStoreVersion() string {
-	v, err := s.db.Get(versionKey)
-	if err != nil {
-		return "v0.0.0"
-	}
-	return string(v)
-}
-
-// PutVersion stores the given version on the disk
-func (s *Store) PutVersion(version string) {
-	s.db.Put(versionKey, []byte(version))
-}
-
-// Clear triggers a disk clear
-func (s *Store) Clear() {
-	s.db.Clear()
-	s.comDB.Clear()
-	s.refIndex = newReferenceIndex(s.db)
-}
-
-// Migrate checks for defined version if it is less than
-// clears the store
-func (s *Store) Migrate(newVersion string) {
-	storeVersion := s.GetStoreVersion()
-	sv, _ := semver.NewVersion(storeVersion)
-
-	if sv == nil {
-		return
-	}
-
-	targetV, _ := semver.NewVersion("v0.0.13")
-	if sv.LessThan(targetV) {
-		log.Println("Clearing database for upgrade.")
-		s.Clear()
-		s.PutVersion(newVersion)
-	}
-}
-
-// LoadStubs loads the defined stubs, compare their hash and index them
-// if needed
-func (s *Store) LoadStubs() {
-	start := time.Now()
-	for _, stubber := range s.stubbers {
-		stubber.Walk(func(path string, data []byte) error {
-			document := NewDocument(stubber.GetURI(path), data)
-			currentMD5 := document.GetHash()
-			entry := newEntry(documentCollection, document.GetURI())
-			savedMD5, err := s.db.Get(entry.getKeyBytes())
-			if err != nil || !bytes.Equal(currentMD5, savedMD5) {
-				document.Load()
-				s.SyncDocument(document)
-			}
-			return nil
-		})
-	}
-	log.Printf("LoadStubs took %s", time.Since(start))
-}
-
-// IfOpen runs the function unless the store is closed, the store stays open
-// while the function is running
-func (s *Store) IfOpen(fn func()) {
-	s.closeMu.RLock()
-	defer s.closeMu.RUnlock()
-	if !s.isClosed {
-		fn()
-	}
-}
-
-// lockDocument runs the function as the only one which indexes or forgets the
-// document, it is not run if the store is closed
-func (s *Store) lockDocument(uri string, fn func()) {
-	s.IfOpen(func() {
-		h := fnv.New32a()
-		h.Write([]byte(uri))
-		mu := &s.documentMu[h.Sum32()%uint32(len(s.documentMu))]
-		mu.Lock()
-		defer mu.Unlock()
-		fn()
-	})
-}
-
-func (s *Store) openedDocument(uri string) *Document {
-	if value, ok := s.documents.Get(uri); ok {
-		return value.(*Document)
-	}
-	return nil
-}
-
-// GetOrCreateDocument checks if the store contains the given URI or
-// create a new document with the given URI from the contents of its file
-func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
-	if document := s.openedDocument(uri); document != nil {
-		return document
-	}
-	data, err := s.FS.ReadFile(ctx, uri)
-	if err != nil {
-		log.Printf("GetOrCreateDocument error: %v", err)
-		return nil
-	}
-	document := NewDocument(uri, data)
-	document.Load()
-	return document
-}
-
-// OpenDocument loads and indexes the document with the given URI and text, which
-// is in the hands of the client from now on whatever happens to its file
-func (s *Store) OpenDocument(uri protocol.DocumentURI, text []byte) *Document {
-	document := NewDocument(uri, text)
-	document.Open()
-	document.Load()
-	s.AdoptDocument(document)
-	return document
-}
-
-// AdoptDocument retains the open document in memory and indexes it
-func (s *Store) AdoptDocument(document *Document) {
-	s.lockDocument(document.GetURI(), func() {
-		s.SaveDocOnStore(document)
-		s.SyncDocument(document)
-	})
-}
-
-// ChangeDocument applies the changes to the open document and indexes it, this
-// returns nil if the document is not open
-func (s *Store) ChangeDocument(uri protocol.DocumentURI, changes []protocol.TextDocumentContentChangeEvent) *Document {
-	var newDoc *Document
-	s.lockDocument(uri, func() {
-		document := s.openedDocument(uri)
-		if document == nil {
-			return
-		}
-		newDoc = document.CloneForMutate()
-		newDoc.ApplyChanges(changes)
-		s.SaveDocOnStore(newDoc)
-		s.SyncDocument(newDoc)
-	})
-	return newDoc
-}
-
-// CloseDocument releases the document with the given URI and indexes the
-// contents of its file again
-func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
-	s.lockDocument(uri, func() {
-		if s.openedDocument(uri) == nil {
-			return
-		}
-		s.documents.Remove(uri)
-		s.compareAndIndex(ctx, uri, true)
-	})
-}
-
-// DeleteDocument deletes all symbols and indexes relating to the URI
-func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
-	s.lockDocument(uri, func() {
-		s.deleteDocument(uri)
-	})
-}
-
-func (s *Store) deleteDocument(uri protocol.DocumentURI) {
-	err := s.updateDocument(uri, func(b storage.Batch, comB storage.Batch) {
-		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
-		ciDeletor.Delete(comB)
-		syDeletor := newSymbolDeletor(s.db, uri)
-		syDeletor.Delete(b)
-		s.refIndex.deleteURI(s, b, uri)
-		b.Delete(newEntry(documentSymbolsCollection, uri).getKeyBytes())
-		b.Delete(newEntry(documentCollection, uri).getKeyBytes())
-	})
-	if err != nil {
-		log.Println(err)
-	}
-}
-
-// DeleteFolder searches for documents and triggers `DeleteDocument`
-func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	for _, documentURI := range s.indexedURIsUnder(uri) {
-		s.DeleteDocument(documentURI)
-	}
-}
-
-func (s *Store) indexedURIsUnder(folder protocol.DocumentURI) []string {
-	var uris []string
-	s.IfOpen(func() {
-		entry := newEntry(documentCollection, strings.TrimSuffix(folder, "/")+"/")
-		s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-			uris = append(uris, strings.Split(string(it.Key()), KeySep)[1])
-		})
-	})
-	return uris
-}
-
-// CompareAndIndexDocument compares the file's hash with the stored one
-// on the disk, and if they are not matched load the document and sync.
-// An open document is left alone, because its contents is not the file's
-func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) {
-	s.lockDocument(uri, func() {
-		s.syncedDocumentURIs.Remove(uri)
-		if s.openedDocument(uri) == nil {
-			s.compareAndIndex(ctx, uri, false)
-		}
-	})
-}
-
-// RemoveDocuments forgets the document, or documents of the folder, with the given
-// URI which do not exist any more, others are compared and indexed
-func (s *Store) RemoveDocuments(ctx context.Context, uri string) {
-	// Documents which are being indexed might have been read before
-	for i := range s.documentMu {
-		s.documentMu[i].Lock()
-		s.documentMu[i].Unlock()
-	}
-	for _, uri := range append(s.indexedURIsUnder(uri), uri) {
-		s.lockDocument(uri, func() {
-			_, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
-			if err == nil && s.openedDocument(uri) == nil {
-				s.compareAndIndex(ctx, uri, true)
-			}
-		})
-	}
-}
-
-func (s *Store) compareAndIndex(ctx context.Context, uri string, deleteIfUnreadable bool) {
-	data, err := s.FS.ReadFile(ctx, uri)
-	if err != nil {
-		log.Printf("Cannot read %s: %v", uri, err)
-		if deleteIfUnreadable || errors.Is(err, fs.ErrNotExist) {
-			s.deleteDocument(uri)
-		}
-		return
-	}
-	document := NewDocument(uri, data)
-	savedMD5, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
-	if err == nil && bytes.Equal(document.GetHash(), savedMD5) {
-		return
-	}
-	document.Load()
-	s.SyncDocument(document)
-}
-
-// SyncDocument writes all definition symbols and indexes to the disk
-// or the fuzzy engine
-func (s *Store) SyncDocument(document *Document) {
-	defer util.TimeTrack(time.Now(), "SyncDocument")
-	uri := document.GetURI()
-	err := s.updateDocument(uri, func(b storage.Batch, comB storage.Batch) {
-		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
-		syDeletor := newSymbolDeletor(s.db, uri)
-		s.refIndex.deleteURI(s, b, uri)
-
-		s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
-
-		ciDeletor.Delete(comB)
-		syDeletor.Delete(b)
-		entry := newEntry(documentCollection, uri)
-		b.Put(entry.getKeyBytes(), document.GetHash())
-	})
-	if err != nil {
-		log.Print(err)
-	}
-}
-
-// updateDocument writes the batches of a document into both databases. The two
-// cannot be written at once, thus the document's hash is forgotten before so
-// that the document is indexed again if only one of them has been written
-func (s *Store) updateDocument(uri string, fn func(b storage.Batch, comB storage.Batch)) error {
-	return s.db.WriteBatch(func(b storage.Batch) error {
-		err := s.comDB.WriteBatch(func(comB storage.Batch) error {
-			fn(b, comB)
-			return s.db.Put(newEntry(documentCollection, uri).getKeyBytes(), []byte{})
-		})
-		return err
-	})
-}
-
-// DebouncedDeprecation runs the function with a copy of the document once the
-// document has not changed for a while, unless it is not open any more by then
-func (s *Store) DebouncedDeprecation(document *Document, fn func(document *Document)) {
-	debounced := s.debouncers.Upsert(document.GetURI(), nil, func(exist bool, old interface{}, _ interface{}) interface{} {
-		if exist {
-			return old
-		}
-		return debounce.New(2 * time.Second)
-	}).(func(func()))
-	debounced(func() {
-		s.IfOpen(func() {
-			s.debouncedMu.Lock()
-			defer s.debouncedMu.Unlock()
-			if s.openedDocument(document.GetURI()) != document {
-				return
-			}
-			// Symbols keep what they have been resolved to, requests may be using them
-			document := document.CloneForMutate()
-			document.Load()
-			fn(document)
-		})
-	})
-}
-
-// SaveDocOnStore retains the document in memory
-func (s *Store) SaveDocOnStore(document *Document) {
-	s.documents.Set(document.GetURI(), document)
-}
-
-// PrepareForIndexing loads all the synced documents from the disk storage
-// into memory, this is to make sure that any deleted documents that are
-// not yet synced, get deleted
-func (s *Store) PrepareForIndexing() {
-	defer util.TimeTrack(time.Now(), "PrepareForIndexing")
-	syncedDocumentURIs := s.getSyncedDocumentURIs()
-	for key, value := range syncedDocumentURIs {
-		s.syncedDocumentURIs.Set(key, value)
-	}
-}
-
-// FinishIndexing checks for all URIs that are not removed from the map
-// and delete them, because if the file exists its URI should be removed
-// from the map
-func (s *Store) FinishIndexing() {
-	for iter := range s.syncedDocumentURIs.IterBuffered() {
-		uri := iter.Key
-		s.lockDocument(uri, func() {
-			if _, ok := s.syncedDocumentURIs.Pop(uri); ok && s.openedDocument(uri) == nil {
-				s.deleteDocument(uri)
-			}
-		})
-	}
-}
-
-// TakeOpenDocuments releases and returns the open documents of the given folder
-func (s *Store) TakeOpenDocuments(folder protocol.DocumentURI) []*Document {
-	var documents []*Document
-	for _, uri := range s.documents.Keys() {
-		if util.IsURIUnder(folder, uri) {
-			if value, ok := s.documents.Pop(uri); ok {
-				documents = append(documents, value.(*Document))
-			}
-		}
-	}
-	return documents
-}
-
-func (s *Store) getSyncedDocumentURIs() map[string][]byte {
-	documentURIs := make(map[string][]byte)
-	entry := newEntry(documentCollection, "file://")
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		documentURIs[strings.Split(string(it.Key()), KeySep)[1]] = it.Value()
-	})
-	return documentURIs
-}
-
-func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, document *Document,
-	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) {
-	for _, impTable := range document.importTables {
-		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
-		for index, i := range is {
-			key := namespaceKey + KeySep + strconv.Itoa(index) + KeySep + document.GetURI()
-			s.indexName(comBatch, document, i, key)
-			ciDeletor.MarkNotDelete(document.GetURI(), i, key)
-		}
-	}
-	tra := newTraverser()
-	var referenceEntryInfos []entryInfo
-	var documentSymbols []documentSymbol
-	tra.traverseDocument(document, func(tra *traverser, child Symbol, _ []Symbol) {
-		if ser, ok := child.(serialisable); ok {
-			key := ser.GetKey()
-			if key == "" {
-				return
-			}
-			if theInterface, ok := ser.(*Interface); ok {
-				ser = theInterface.withResolvedExtends(document)
-			}
-			entry := newEntry(ser.GetCollection(), key)
-			ser.Serialise(entry.e)
-			writeEntry(batch, entry)
-			symbol := documentSymbol{
-				collection: ser.GetCollection(),
-				key:        ser.GetKey(),
-			}
-			syDeletor.MarkNotDelete(ser)
-
-			if indexable, ok := child.(NameIndexable); ok {
-				s.indexName(comBatch, document, indexable, key)
-				ciDeletor.MarkNotDelete(document.GetURI(), indexable, key)
-			}
-			documentSymbols = append(documentSymbols, symbol)
-		}
-
-		if r, ok := child.(SymbolReference); ok {
-			referenceEntryInfos = append(referenceEntryInfos, entryInfo{
-				ref: r.ReferenceFQN(),
-				r:   r.ReferenceLocation().Range,
-			})
-		}
-		if h, ok := child.(HasTypes); ok {
-			location := h.GetLocation()
-			if !stub.IsStub(location.URI) {
-				r := location.Range
-				for _, ref := range SymToRefs(document, h) {
-					referenceEntryInfos = append(referenceEntryInfos, entryInfo{
-						ref: ref,
-						r:   r,
-					})
-				}
-			}
-		}
-	})
-	for _, name := range document.typeNames {
-		referenceEntryInfos = append(referenceEntryInfos, entryInfo{
-			ref: name.fqn,
-			r:   name.location.Range,
-		})
-	}
-	s.indexDocumentSymbols(document, batch, documentSymbols)
-	s.refIndex.index(s, document, batch, referenceEntryInfos)
-}
-
-func (s *Store) indexDocumentSymbols(document *Document, batch storage.Batch, symbols []documentSymbol) {
-	uri := document.GetURI()
-	entry := newEntry(documentSymbolsCollection, uri)
-	entry.e.WriteInt(len(symbols))
-	for _, symbol := range symbols {
-		symbol.serialise(entry.e)
-	}
-	writeEntry(batch, entry)
-}
-
-func (s *Store) indexName(batch storage.Batch, document *Document, indexable NameIndexable, key string) {
-	entries := createCompletionEntries(document.GetURI(), indexable, key)
-	for _, entry := range entries {
-		writeEntry(batch, entry)
-	}
-}
-
-func writeEntry(batch storage.Batch, entry *entry) {
-	batch.Put(entry.getKeyBytes(), entry.bytes())
-}
-
-// GetURI returns the store URI
-func (s *Store) GetURI() protocol.DocumentURI {
-	return s.uri
-}
-
-// IsSymbolValid returns true if the given symbol matches all predicates of the given options
-func isSymbolValid(symbol Symbol, options SearchOptions) bool {
-	if len(options.predicates) == 0 {
-		return true
-	}
-	allTrue := true
-	for _, predicate := range options.predicates {
-		if !predicate(symbol) {
-			allTrue = false
-			break
-		}
-	}
-	return allTrue
-}
-
-func namespacePredicate(scope string) func(s Symbol) bool {
-	if scope == "" {
-		return func(s Symbol) bool {
-			return true
-		}
-	}
-	return func(s Symbol) bool {
-		symbolScope := ""
-		if v, ok := s.(HasScope); ok {
-			symbolScope = v.GetScope()
-		}
-		return symbolScope == scope
-	}
-}
-
-func nestedNamespacePredicate(scope string) func(s Symbol) bool {
-	return func(s Symbol) bool {
-		v, ok := s.(HasScope)
-		return scope == "" || scope == "\\" || ok && strings.HasPrefix(v.GetScope()+"\\", scope+"\\")
-	}
-}
-
-// SearchNamespaces searches namespaces with the given keyword, and keyword can contain
-// a namespace scope, e.g. Namespace1\NestedNams
-func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]string, SearchResult) {
-	options = options.restart()
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	// In namespace normally there isn't \ but somehow it has ignores in because
-	// namespaces are not indexed with \
-	if scope == "\\" {
-		scope = ""
-	}
-	namespaces := []string{}
-	unique := mapset.New[string]()
-	collection := namespaceCompletionIndex
-	if len(scope) != 0 {
-		collection += KeySep + scope
-	}
-	query := searchQuery{
-		collection: collection,
-		keyword:    keyword,
-		onData: func(cv CompletionValue) onDataResult {
-			// A namespace is indexed once for each document declaring it
-			namespace := strings.Split(string(cv), KeySep)[0]
-			if !unique.Has(namespace) {
-				unique.Put(namespace)
-				namespaces = append(namespaces, namespace)
-				return onDataResult{options.IsLimitReached()}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return namespaces, result
-}
-
-// GetClasses searches all classes with the given name
-func (s *Store) GetClasses(name string) []*Class {
-	entry := newEntry(classCollection, name+KeySep)
-	classes := []*Class{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		classes = append(classes, ReadClass(d))
-	})
-	return classes
-}
-
-func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onDataResult) {
-	if scope[len(scope)-1] != '\\' {
-		scope += "\\"
-	}
-	entry := newEntry(classCollection, scope)
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		class := ReadClass(storage.NewDecoder(it.Value()))
-		result := onData(class)
-		if result.shouldStop {
-			it.Stop()
-		}
-	})
-}
-
-// SearchClasses uses the completion index to search for classes with the given keyword.
-// `keyword` can contain scope \Namespace1\Cl
-func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
-	options = options.restart()
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	classes := []*Class{}
-	if scope != "" && keyword == "" {
-		isComplete := true
-		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
-			if isSymbolValid(class, options) {
-				classes = append(classes, class)
-				if options.IsLimitReached() {
-					isComplete = false
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		})
-		return classes, SearchResult{isComplete}
-	}
-	// Classes of nested namespaces are included
-	options = options.WithPredicate(nestedNamespacePredicate(scope))
-	query := searchQuery{
-		collection: classCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(classCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			if len(value) == 0 {
-				log.Printf("Empty class: %v", strings.Split(string(completionValue), KeySep))
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			class := ReadClass(d)
-			if isSymbolValid(class, options) {
-				classes = append(classes, class)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return classes, result
-}
-
-// GetInterfaces searches all the interfaces with the given name from the disk storage
-func (s *Store) GetInterfaces(name string) []*Interface {
-	entry := newEntry(interfaceCollection, name+KeySep)
-	interfaces := []*Interface{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		interfaces = append(interfaces, ReadInterface(d))
-	})
-	return interfaces
-}
-
-// SearchInterfaces uses completion index to search for interfaces with the given keyword.
-// `keyword` can contain scope \Namespace1\Cl
-func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Interface, SearchResult) {
-	options = options.restart()
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	interfaces := []*Interface{}
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: interfaceCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(interfaceCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			theInterface := ReadInterface(d)
-			if isSymbolValid(theInterface, options) {
-				interfaces = append(interfaces, theInterface)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return interfaces, result
-}
-
-// GetTraits searches for all the traits with the given name from the disk storage
-func (s *Store) GetTraits(name string) []*Trait {
-	entry := newEntry(traitCollection, name+KeySep)
-	traits := []*Trait{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		traits = append(traits, ReadTrait(d))
-	})
-	return traits
-}
-
-// SearchTraits uses completion index to search traits matching the given keyword.
-// `keyword` can contain scope
-func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, SearchResult) {
-	options = options.restart()
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	traits := []*Trait{}
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: traitCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(traitCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			trait := ReadTrait(d)
-			if isSymbolValid(trait, options) {
-				traits = append(traits, trait)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return traits, result
-}
-
-// GetFunctions searches all functions with the given name from the disk storage
-func (s *Store) GetFunctions(name string) []*Function {
-	entry := newEntry(functionCollection, name+KeySep)
-	functions := []*Function{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		functions = append(functions, ReadFunction(d))
-	})
-	return functions
-}
-
-// SearchFunctions uses the completion index to search functions matching the given keyword.
-// `keyword` can contain scope
-func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Function, SearchResult) {
-	options = options.restart()
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	functions := []*Function{}
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: functionCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(functionCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			if len(value) == 0 {
-				log.Printf("Empty function: %v", strings.Split(string(completionValue), KeySep))
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			function := ReadFunction(d)
-			if isSymbolValid(function, options) {
-				functions = append(functions, function)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return functions, result
-}
-
-// GetConsts searches all the consts with the given name from the disk storage
-func (s *Store) GetConsts(name string) []*Const {
-	entry := newEntry(constCollection, name+KeySep)
-	consts := []*Const{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		consts = append(consts, ReadConst(d))
-	})
-	return consts
-}
-
-// SearchConsts uses completion index to search constants matching the given keyword
-func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
-	options = options.restart()
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	consts := []*Const{}
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: constCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(constCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			constant := ReadConst(d)
-			if isSymbolValid(constant, options) {
-				consts = append(consts, constant)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return consts, result
-}
-
-// GetDefines searches all `define()` with the given name from the disk storage
-func (s *Store) GetDefines(name string) []*Define {
-	entry := newEntry(defineCollection, name+KeySep)
-	defines := []*Define{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		defines = append(defines, ReadDefine(d))
-	})
-	return defines
-}
-
-// SearchDefines uses completion index to search `define()`s matching the given keyword
-func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
-	options = options.restart()
-	scope, keyword := GetScopeAndNameFromString(keyword)
-	defines := []*Define{}
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: defineCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(defineCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			define := ReadDefine(d)
-			if isSymbolValid(define, options) {
-				defines = append(defines, define)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return defines, result
-}
-
-// GetMethods searches for all methods with the same scope and name as given
-func (s *Store) GetMethods(scope string, name string) []*Method {
-	entry := newEntry(methodCollection, scope+KeySep+strings.ToLower(name)+KeySep)
-	methods := []*Method{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		methods = append(methods, ReadMethod(d))
-	})
-	return methods
-}
-
-// GetAllMethods returns all the methods with the given scope.
-// This function can be faster than `SearchMethods` for searching only methods
-// under given scope, because this only scans methods which have the given scope
-func (s *Store) GetAllMethods(scope string) []*Method {
-	entry := newEntry(methodCollection, scope+KeySep)
-	methods := []*Method{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		methods = append(methods, ReadMethod(d))
-	})
-	return methods
-}
-
-// SearchMethods uses completion index to search methods matching the given scope and keyword.
-// This function is slow and should only be used for searching method store-wide, because the completion
-// index will scan through all the methods in the store and compare its scope.
-// If the scope is "" all methods matching will be returned.
-func (s *Store) SearchMethods(scope string, keyword string, options SearchOptions) ([]*Method, SearchResult) {
-	options = options.restart()
-	if keyword == "" {
-		return []*Method{}, SearchResult{false}
-	}
-
-	methods := []*Method{}
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: methodCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(methodCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			if len(value) == 0 {
-				log.Printf("Empty methods: scope %s, %v", scope, strings.Split(string(completionValue), KeySep))
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			method := ReadMethod(d)
-			if isSymbolValid(method, options) {
-				methods = append(methods, method)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return methods, result
-}
-
-// GetClassConsts searches all class constants with the given scope and name from the disk
-// storage.
-// The word class is used loosely in here which means it can be interfaces/traits
-func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
-	entry := newEntry(classConstCollection, scope+KeySep+name+KeySep)
-	classConsts := []*ClassConst{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		classConsts = append(classConsts, ReadClassConst(d))
-	})
-	return classConsts
-}
-
-// GetAllClassConsts returns all the class constants under the given scope.
-// The word class is used loosely in here, which means it can be classes/interfaces/traits
-func (s *Store) GetAllClassConsts(scope string) []*ClassConst {
-	entry := newEntry(classConstCollection, scope+KeySep)
-	classConsts := []*ClassConst{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		classConsts = append(classConsts, ReadClassConst(d))
-	})
-	return classConsts
-}
-
-// SearchClassConsts uses completion index to search class constants matching the
-// given scope and keyword.
-// If the scope is empty all matched class constants are returned.
-// The word class is used loosely in here, which means it can be classes/interfaces/traits
-func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOptions) ([]*ClassConst, SearchResult) {
-	options = options.restart()
-	classConsts := []*ClassConst{}
-	if keyword == "" {
-		if scope == "" {
-			return classConsts, SearchResult{false}
-		}
-		for _, classConst := range s.GetAllClassConsts(scope) {
-			if !isSymbolValid(classConst, options) {
-				continue
-			}
-			classConsts = append(classConsts, classConst)
-			if options.IsLimitReached() {
-				return classConsts, SearchResult{false}
-			}
-		}
-		return classConsts, SearchResult{true}
-	}
-
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: classConstCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(classConstCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			classConst := ReadClassConst(d)
-			if isSymbolValid(classConst, options) {
-				classConsts = append(classConsts, classConst)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return classConsts, result
-}
-
-// GetProperties searches all properties with the given scope and name from the disk storage
-func (s *Store) GetProperties(scope string, name string) []*Property {
-	entry := newEntry(propertyCollection, scope+KeySep+name+KeySep)
-	properties := []*Property{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		properties = append(properties, ReadProperty(d))
-	})
-	return properties
-}
-
-// GetAllProperties searches all properties with the given scope from the disk storage
-func (s *Store) GetAllProperties(scope string) []*Property {
-	entry := newEntry(propertyCollection, scope+KeySep)
-	properties := []*Property{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		properties = append(properties, ReadProperty(d))
-	})
-	return properties
-}
-
-// SearchProperties uses completion index to search properties matching the given scope
-// and name. If the scope is "", this will forward to `GetAllProperties`, and ignore keyword
-func (s *Store) SearchProperties(scope string, keyword string, options SearchOptions) ([]*Property, SearchResult) {
-	options = options.restart()
-	properties := []*Property{}
-	if keyword == "" {
-		if scope == "" {
-			return properties, SearchResult{false}
-		}
-		for _, property := range s.GetAllProperties(scope) {
-			if !isSymbolValid(property, options) {
-				continue
-			}
-			properties = append(properties, property)
-			if options.IsLimitReached() {
-				return properties, SearchResult{false}
-			}
-		}
-		return properties, SearchResult{true}
-	}
-
-	options = options.WithPredicate(namespacePredicate(scope))
-	query := searchQuery{
-		collection: propertyCompletionIndex,
-		keyword:    keyword,
-		onData: func(completionValue CompletionValue) onDataResult {
-			entry := newEntry(propertyCollection, string(completionValue))
-			value, err := s.db.Get(entry.getKeyBytes())
-			if err != nil {
-				return onDataResult{false}
-			}
-			d := storage.NewDecoder(value)
-			property := ReadProperty(d)
-			if isSymbolValid(property, options) {
-				properties = append(properties, property)
-				if options.IsLimitReached() {
-					return onDataResult{true}
-				}
-			}
-			return onDataResult{false}
-		},
-	}
-	result := searchCompletions(s.comDB, query)
-	return properties, result
-}
-
-// GetGlobalVariables searches all global variables with the given name from the disk storage
-func (s *Store) GetGlobalVariables(name string) []*GlobalVariable {
-	entry := newEntry(globalVariableCollection, name+KeySep)
-	results := []*GlobalVariable{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
-		results = append(results, ReadGlobalVariable(d))
-	})
-	return results
-}
-
-// GetReferences returns the locations of the reference to an FQN
-func (s *Store) GetReferences(ref string) []protocol.Location {
-	return s.refIndex.search(s, ref)
-}
-
-// SymToRefs converts a HasTypes symbol to reference strings
-func SymToRefs(document *Document, sym HasTypes) []string {
-	var refs []string
-	switch v := sym.(type) {
-	case *FunctionCall:
-		possibleFQNs := document.ImportTableAtPos(sym.GetLocation().Range.Start).FunctionPossibleFQNs(NewTypeString(v.Name))
-		for _, fqn := range possibleFQNs {
-			sb := &strings.Builder{}
-			sb.WriteString(fqn)
-			sb.WriteString("()")
-			refs = append(refs, sb.String())
-		}
-	case *ClassTypeDesignator, *TypeDeclaration, *ClassAccess, *TraitAccess, *InterfaceAccess:
-		if c, ok := sym.(*ClassAccess); ok && IsNameRelative(c.Name) {
-			break
-		}
-		for _, t := range sym.GetTypes().Resolve() {
-			refs = append(refs, t.GetFQN())
-		}
-	case HasTypesHasScope:
-		sb := &strings.Builder{}
-		sb.WriteString(".")
-		sb.WriteString(v.MemberName())
-		refs = append(refs, sb.String())
-	}
-	return refs
-}
+package analysis
+
+import (
+	"bytes"
+	"context"
+	"errors"
+	"hash/fnv"
+	"io/fs"
+	"log"
+	"os"
+	"path"
+	"strconv"
+	"strings"
+	"sync"
+	"time"
+
+	"github.com/Masterminds/semver"
+	"github.com/bep/debounce"
+	"github.com/john-nguyen09/phpintel/analysis/storage"
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/stub"
+	"github.com/john-nguyen09/phpintel/util"
+	"github.com/john-nguyen09/pogreb"
+	cmap "github.com/orcaman/concurrent-map"
+	"github.com/zyedidia/generic/mapset"
+)
+
+const (
+	documentSymbolsCollection    string = "docSym"
+	classCollection              string = "cla"
+	interfaceCollection          string = "int"
+	traitCollection              string = "tra"
+	functionCollection           string = "fun"
+	constCollection              string = "con"
+	defineCollection             string = "def"
+	methodCollection             string = "met"
+	classConstCollection         string = "claCon"
+	propertyCollection           string = "pro"
+	globalVariableCollection     string = "gloVar"
+	documentCollection           string = "doc"
+
+	documentCompletionIndex   string = "docCom"
+	completionDataCollection  string = "comDatCol"
+	functionCompletionIndex   string = "funCom"
+	constCompletionIndex      string = "conCom"
+	defineCompletionIndex     string = "defCom"
+	classCompletionIndex      string = "claCom"
+	interfaceCompletionIndex  string = "intCom"
+	traitCompletionIndex      string = "traCom"
+	methodCompletionIndex     string = "metCom"
+	propertyCompletionIndex   string = "proCom"
+	classConstCompletionIndex string = "claConCom"
+	namespaceCompletionIndex  string = "namCom"
+
+	referenceIndexCollection string = "refInd"
+	documentReferenceIndex   string = "docRefInd"
+)
+
+var /* const */ versionKey = []byte("Version")
+
+// KeySep is the separator when constructing key
+const KeySep string = "\x00"
+
+type entry struct {
+	key []byte
+	e   *storage.Encoder
+}
+
+func newEntry(collection string, key string) *entry {
+	return &entry{
+		key: []byte(collection + KeySep + key),
+		e:   storage.NewEncoder(),
+	}
+}
+
+func (s *entry) getKeyBytes() []byte {
+	return s.key
+}
+
+func (s *entry) bytes() []byte {
+	return s.e.Bytes()
+}
+
+type documentSymbol struct {
+	collection    string
+	key           string
+	indexableName string
+}
+
+func (s documentSymbol) serialise(e *storage.Encoder) {
+	e.WriteString(s.collection)
+	e.WriteString(s.key)
+	e.WriteString(s.indexableName)
+}
+
+func readDocumentSymbol(d *storage.Decoder) documentSymbol {
+	return documentSymbol{
+		collection:    d.ReadString(),
+		key:           d.ReadString(),
+		indexableName: d.ReadString(),
+	}
+}
+
+// Store contains information about a given folder and functions
+// for querying symbols
+type Store struct {
+	uri       protocol.DocumentURI
+	FS        protocol.FS
+	db        storage.DB
+	comDB     storage.DB
+	greb      *pogreb.DB // not opened any more, symbols of documents are in db
+	refIndex  *referenceIndex
+	stubbers  []stub.Stubber
+	documents cmap.ConcurrentMap
+	// closeMu is held for writing only while closing, so that nothing is written
+	// to a closed database
+	closeMu  sync.RWMutex
+	isClosed bool
+	// documentMu serialises, by document, whatever indexes or forgets it
+	documentMu [64]sync.Mutex
+
+	syncedDocumentURIs cmap.ConcurrentMap
+	debouncers         cmap.ConcurrentMap
+	debouncedMu        sync.Mutex // makes what is debounced run one after another
+}
+
+func readDocumentSymbols(db storage.DB, e *entry, fn func(documentSymbol) bool) {
+	// A document which is not indexed yet has no entry
+	b, err := db.Get(e.getKeyBytes())
+	if err == nil && len(b) > 0 {
+		d := storage.NewDecoder(b)
+		count := d.ReadInt()
+		for i := 0; i < count; i++ {
+			symbol := readDocumentSymbol(d)
+			if fn(symbol) {
+				break
+			}
+		}
+	}
+}
+
+type symbolDeletor struct {
+	uri     string
+	symbols mapset.Set[string]
+}
+
+func newSymbolDeletor(db storage.DB, uri string) *symbolDeletor {
+	deletor := &symbolDeletor{
+		uri:     uri,
+		symbols: mapset.New[string](),
+	}
+	readDocumentSymbols(db, newEntry(documentSymbolsCollection, uri), func(symbol documentSymbol) bool {
+		deletor.symbols.Put(symbol.collection + KeySep + symbol.key)
+		return false
+	})
+	return deletor
+}
+
+func (d *symbolDeletor) MarkNotDelete(ser serialisable) {
+	d.symbols.Remove(ser.GetCollection() + KeySep + ser.GetKey())
+}
+
+func (d *symbolDeletor) Delete(batch storage.Batch) {
+	d.symbols.Each(func(key string) {
+		batch.Delete([]byte(key))
+	})
+}
+
+// SearchOptions contains predicates and limiter if applicable for searching
+// symbols
+type SearchOptions struct {
+	predicates []func(s Symbol) bool
+	limit      int
+	limiter    func() bool
+}
+
+// NewSearchOptions creates an empty search option
+func NewSearchOptions() SearchOptions {
+	return SearchOptions{}
+}
+
+// WithPredicate adds a predicate into the search option
+func (s SearchOptions) WithPredicate(predicate func(s Symbol) bool) SearchOptions {
+	predicates := make([]func(s Symbol) bool, 0, len(s.predicates)+1)
+	predicates = append(predicates, s.predicates...)
+	s.predicates = append(predicates, predicate)
+	return s
+}
+
+// WithLimit adds a limiter into the search option
+func (s SearchOptions) WithLimit(limit int) SearchOptions {
+	s.limit = limit
+	return s.restart()
+}
+
+// restart begins counting anew, every search has the whole limit for itself
+func (s SearchOptions) restart() SearchOptions {
+	if s.limit <= 0 {
+		return s
+	}
+	count, limit := 0, s.limit
+	s.limiter = func() bool {
+		count++
+		return count >= limit
+	}
+	return s
+}
+
+// IsLimitReached returns true if the limitter reaches the limit
+func (s SearchOptions) IsLimitReached() bool {
+	if s.limiter == nil {
+		return false
+	}
+	return s.limiter()
+}
+
+// NewStore creates a store with the disk storage or returns an error
+// if the disk storage cannot be created
+func NewStore(fileSystem protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
+	_, err := os.Stat(storePath)
+	if err != nil {
+		if os.IsNotExist(err) {
+			os.MkdirAll(storePath, os.ModePerm)
+		}
+	}
+	db, err := storage.NewGoLevelDB(storePath)
+	stubbers := stub.GetStubbers()
+	if err != nil {
+		return nil, err
+	}
+	comDB, err := storage.NewGoLevelDB(path.Join(storePath, "completion"))
+	if err != nil {
+		db.Close()
+		return nil, err
+	}
+	store := &Store{
+		uri:       uri,
+		FS:        fileSystem,
+		db:        db,
+		comDB:     comDB,
+		refIndex:  newReferenceIndex(db),
+		stubbers:  stubbers,
+		documents: cmap.New(),
+
+		syncedDocumentURIs: cmap.New(),
+		debouncers:         cmap.New(),
+	}
+	return store, nil
+}
+
+// Close triggers close on the fuzzy engine, and closes the disk storage
+func (s *Store) Close() {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.isClosed {
+		return
+	}
+	s.db.Close()
+	s.comDB.Close()
+	if s.greb != nil {
+		s.greb.Close()
+	}
+	s.isClosed = true
+}
+
+// GetStoreVersion returns the version of the disk storage or v0.0.0 if
+// the version is missing from the disk
+func (s *Store) GetStoreVersion() string {
+	v, err := s.db.Get(versionKey)
+	if err != nil {
+		return "v0.0.0"
+	}
+	return string(v)
+}
+
+// PutVersion stores the given version on the disk
+func (s *Store) PutVersion(version string) {
+	s.db.Put(versionKey, []byte(version))
+}
+
+// Clear triggers a disk clear
+func (s *Store) Clear() {
+	s.db.Clear()
+	s.comDB.Clear()
+	s.refIndex = newReferenceIndex(s.db)
+}
+
+// Migrate checks for defined version if it is less than
+// clears the store
+func (s *Store) Migrate(newVersion string) {
+	storeVersion := s.GetStoreVersion()
+	sv, _ := semver.NewVersion(storeVersion)
+
+	if sv == nil {
+		return
+	}
+
+	targetV, _ := semver.NewVersion("v0.0.13")
+	if sv.LessThan(targetV) {
+		log.Println("Clearing database for upgrade.")
+		s.Clear()
+		s.PutVersion(newVersion)
+	}
+}
+
+// LoadStubs loads the defined stubs, compare their hash and index them
+// if needed
+func (s *Store) LoadStubs() {
+	start := time.Now()
+	for _, stubber := range s.stubbers {
+		stubber.Walk(func(path string, data []byte) error {
+			document := NewDocument(stubber.GetURI(path), data)
+			currentMD5 := document.GetHash()
+			entry := newEntry(documentCollection, document.GetURI())
+			savedMD5, err := s.db.Get(entry.getKeyBytes())
+			if err != nil || !bytes.Equal(currentMD5, savedMD5) {
+				document.Load()
+				s.SyncDocument(document)
+			}
+			return nil
+		})
+	}
+	log.Printf("LoadStubs took %s", time.Since(start))
+}
+
+// IfOpen runs the function unless the store is closed, the store stays open
+// while the function is running
+func (s *Store) IfOpen(fn func()) {
+	s.closeMu.RLock()
+	defer s.closeMu.RUnlock()
+	if !s.isClosed {
+		fn()
+	}
+}
+
+// lockDocument runs the function as the only one which indexes or forgets the
+// document, it is not run if the store is closed
+func (s *Store) lockDocument(uri string, fn func()) {
+	s.IfOpen(func() {
+		h := fnv.New32a()
+		h.Write([]byte(uri))
+		mu := &s.documentMu[h.Sum32()%uint32(len(s.documentMu))]
+		mu.Lock()
+		defer mu.Unlock()
+		fn()
+	})
+}
+
+func (s *Store) openedDocument(uri string) *Document {
+	if value, ok := s.documents.Get(uri); ok {
+		return value.(*Document)
+	}
+	return nil
+}
+
+// GetOrCreateDocument checks if the store contains the given URI or
+// create a new document with the given URI from the contents of its file
+func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
+	if document := s.openedDocument(uri); document != nil {
+		return document
+	}
+	data, err := s.FS.ReadFile(ctx, uri)
+	if err != nil {
+		log.Printf("GetOrCreateDocument error: %v", err)
+		return nil
+	}
+	document := NewDocument(uri, data)
+	document.Load()
+	return document
+}
+
+// OpenDocument loads and indexes the document with the given URI and text, which
+// is in the hands of the client from now on whatever happens to its file
+func (s *Store) OpenDocument(uri protocol.DocumentURI, text []byte) *Document {
+	document := NewDocument(uri, text)
+	document.Open()
+	document.Load()
+	s.AdoptDocument(document)
+	return document
+}
+
+// AdoptDocument retains the open document in memory and indexes it
+func (s *Store) AdoptDocument(document *Document) {
+	s.lockDocument(document.GetURI(), func() {
+		s.SaveDocOnStore(document)
+		s.SyncDocument(document)
+	})
+}
+
+// ChangeDocument applies the changes to the open document and indexes it, this
+// returns nil if the document is not open
+func (s *Store) ChangeDocument(uri protocol.DocumentURI, changes []protocol.TextDocumentContentChangeEvent) *Document {
+	var newDoc *Document
+	s.lockDocument(uri, func() {
+		document := s.openedDocument(uri)
+		if document == nil {
+			return
+		}
+		newDoc = document.CloneForMutate()
+		newDoc.ApplyChanges(changes)
+		s.SaveDocOnStore(newDoc)
+		s.SyncDocument(newDoc)
+	})
+	return newDoc
+}
+
+// CloseDocument releases the document with the given URI and indexes the
+// contents of its file again
+func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
+	s.lockDocument(uri, func() {
+		if s.openedDocument(uri) == nil {
+			return
+		}
+		s.documents.Remove(uri)
+		s.compareAndIndex(ctx, uri, true)
+	})
+}
+
+// DeleteDocument deletes all symbols and indexes relating to the URI
+func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
+	s.lockDocument(uri, func() {
+		s.deleteDocument(uri)
+	})
+}
+
+func (s *Store) deleteDocument(uri protocol.DocumentURI) {
+	err := s.updateDocument(uri, func(b storage.Batch, comB storage.Batch) {
+		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+		ciDeletor.Delete(comB)
+		syDeletor := newSymbolDeletor(s.db, uri)
+		syDeletor.Delete(b)
+		s.refIndex.deleteURI(s, b, uri)
+		b.Delete(newEntry(documentSymbolsCollection, uri).getKeyBytes())
+		b.Delete(newEntry(documentCollection, uri).getKeyBytes())
+	})
+	if err != nil {
+		log.Println(err)
+	}
+}
+
+// DeleteFolder searches for documents and triggers `DeleteDocument`
+func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
+	for _, documentURI := range s.indexedURIsUnder(uri) {
+		s.DeleteDocument(documentURI)
+	}
+}
+
+func (s *Store) indexedURIsUnder(folder protocol.DocumentURI) []string {
+	var uris []string
+	s.IfOpen(func() {
+		entry := newEntry(documentCollection, strings.TrimSuffix(folder, "/")+"/")
+		s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+			uris = append(uris, strings.Split(string(it.Key()), KeySep)[1])
+		})
+	})
+	return uris
+}
+
+// CompareAndIndexDocument compares the file's hash with the stored one
+// on the disk, and if they are not matched load the document and sync.
+// An open document is left alone, because its contents is not the file's
+func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) {
+	s.lockDocument(uri, func() {
+		s.syncedDocumentURIs.Remove(uri)
+		if s.openedDocument(uri) == nil {
+			s.compareAndIndex(ctx, uri, false)
+		}
+	})
+}
+
+// RemoveDocuments forgets the document, or documents of the folder, with the given
+// URI which do not exist any more, others are compared and indexed
+func (s *Store) RemoveDocuments(ctx context.Context, uri string) {
+	// Documents which are being indexed might have been read before
+	for i := range s.documentMu {
+		s.documentMu[i].Lock()
+		s.documentMu[i].Unlock()
+	}
+	for _, uri := range append(s.indexedURIsUnder(uri), uri) {
+		s.lockDocument(uri, func() {
+			_, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
+			if err == nil && s.openedDocument(uri) == nil {
+				s.compareAndIndex(ctx, uri, true)
+			}
+		})
+	}
+}
+
+func (s *Store) compareAndIndex(ctx context.Context, uri string, deleteIfUnreadable bool) {
+	data, err := s.FS.ReadFile(ctx, uri)
+	if err != nil {
+		log.Printf("Cannot read %s: %v", uri, err)
+		if deleteIfUnreadable || errors.Is(err, fs.ErrNotExist) {
+			s.deleteDocument(uri)
+		}
+		return
+	}
+	document := NewDocument(uri, data)
+	savedMD5, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
+	if err == nil && bytes.Equal(document.GetHash(), savedMD5) {
+		return
+	}
+	document.Load()
+	s.SyncDocument(document)
+}
+
+// SyncDocument writes all definition symbols and indexes to the disk
+// or the fuzzy engine
+func (s *Store) SyncDocument(document *Document) {
+	defer util.TimeTrack(time.Now(), "SyncDocument")
+	uri := document.GetURI()
+	err := s.updateDocument(uri, func(b storage.Batch, comB storage.Batch) {
+		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+		syDeletor := newSymbolDeletor(s.db, uri)
+		s.refIndex.deleteURI(s, b, uri)
+
+		s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
+
+		ciDeletor.Delete(comB)
+		syDeletor.Delete(b)
+		entry := newEntry(documentCollection, uri)
+		b.Put(entry.getKeyBytes(), document.GetHash())
+	})
+	if err != nil {
+		log.Print(err)
+	}
+}
+
+// updateDocument writes the batches of a document into both databases. The two
+// cannot be written at once, thus the document's hash is forgotten before so
+// that the document is indexed again if only one of them has been written
+func (s *Store) updateDocument(uri string, fn func(b storage.Batch, comB storage.Batch)) error {
+	return s.db.WriteBatch(func(b storage.Batch) error {
+		err := s.comDB.WriteBatch(func(comB storage.Batch) error {
+			fn(b, comB)
+			return s.db.Put(newEntry(documentCollection, uri).getKeyBytes(), []byte{})
+		})
+		return err
+	})
+}
+
+// DebouncedDeprecation runs the function with a copy of the document once the
+// document has not changed for a while, unless it is not open any more by then
+func (s *Store) DebouncedDeprecation(document *Document, fn func(document *Document)) {
+	debounced := s.debouncers.Upsert(document.GetURI(), nil, func(exist bool, old interface{}, _ interface{}) interface{} {
+		if exist {
+			return old
+		}
+		return debounce.New(2 * time.Second)
+	}).(func(func()))
+	debounced(func() {
+		s.IfOpen(func() {
+			s.debouncedMu.Lock()
+			defer s.debouncedMu.Unlock()
+			if s.openedDocument(document.GetURI()) != document {
+				return
+			}
+			// Symbols keep what they have been resolved to, requests may be using them
+			document := document.CloneForMutate()
+			document.Load()
+			fn(document)
+		})
+	})
+}
+
+// SaveDocOnStore retains the document in memory
+func (s *Store) SaveDocOnStore(document *Document) {
+	s.documents.Set(document.GetURI(), document)
+}
+
+// PrepareForIndexing loads all the synced documents from the disk storage
+// into memory, this is to make sure that any deleted documents that are
+// not yet synced, get deleted
+func (s *Store) PrepareForIndexing() {
+	defer util.TimeTrack(time.Now(), "PrepareForIndexing")
+	syncedDocumentURIs := s.getSyncedDocumentURIs()
+	for key, value := range syncedDocumentURIs {
+		s.syncedDocumentURIs.Set(key, value)
+	}
+}
+
+// FinishIndexing checks for all URIs that are not removed from the map
+// and delete them, because if the file exists its URI should be removed
+// from the map
+func (s *Store) FinishIndexing() {
+	for iter := range s.syncedDocumentURIs.IterBuffered() {
+		uri := iter.Key
+		s.lockDocument(uri, func() {
+			if _, ok := s.syncedDocumentURIs.Pop(uri); ok && s.openedDocument(uri) == nil {
+				s.deleteDocument(uri)
+			}
+		})
+	}
+}
+
+// TakeOpenDocuments releases and returns the open documents of the given folder
+func (s *Store) TakeOpenDocuments(folder protocol.DocumentURI) []*Document {
+	var documents []*Document
+	for _, uri := range s.documents.Keys() {
+		if util.IsURIUnder(folder, uri) {
+			if value, ok := s.documents.Pop(uri); ok {
+				documents = append(documents, value.(*Document))
+			}
+		}
+	}
+	return documents
+}
+
+func (s *Store) getSyncedDocumentURIs() map[string][]byte {
+	documentURIs := make(map[string][]byte)
+	entry := newEntry(documentCollection, "file://")
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		documentURIs[strings.Split(string(it.Key()), KeySep)[1]] = it.Value()
+	})
+	return documentURIs
+}
+
+func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, document *Document,
+	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) {
+	for _, impTable := range document.importTables {
+		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
+		for index, i := range is {
+			key := namespaceKey + KeySep + strconv.Itoa(index) + KeySep + document.GetURI()
+			s.indexName(comBatch, document, i, key)
+			ciDeletor.MarkNotDelete(document.GetURI(), i, key)
+		}
+	}
+	tra := newTraverser()
+	var referenceEntryInfos []entryInfo
+	var documentSymbols []documentSymbol
+	tra.traverseDocument(document, func(tra *traverser, child Symbol, _ []Symbol) {
+		if ser, ok := child.(serialisable); ok {
+			key := ser.GetKey()
+			if key == "" {
+				return
+			}
+			if theInterface, ok := ser.(*Interface); ok {
+				ser = theInterface.withResolvedExtends(document)
+			}
+			entry := newEntry(ser.GetCollection(), key)
+			ser.Serialise(entry.e)
+			writeEntry(batch, entry)
+			symbol := documentSymbol{
+				collection: ser.GetCollection(),
+				key:        ser.GetKey(),
+			}
+			syDeletor.MarkNotDelete(ser)
+
+			if indexable, ok := child.(NameIndexable); ok {
+				s.indexName(comBatch, document, indexable, key)
+				ciDeletor.MarkNotDelete(document.GetURI(), indexable, key)
+			}
+			documentSymbols = append(documentSymbols, symbol)
+		}
+
+		if r, ok := child.(SymbolReference); ok {
+			referenceEntryInfos = append(referenceEntryInfos, entryInfo{
+				ref: r.ReferenceFQN(),
+				r:   r.ReferenceLocation().Range,
+			})
+		}
+		if h, ok := child.(HasTypes); ok {
+			location := h.GetLocation()
+			if !stub.IsStub(location.URI) {
+				r := location.Range
+				for _, ref := range SymToRefs(document, h) {
+					referenceEntryInfos = append(referenceEntryInfos, entryInfo{
+						ref: ref,
+						r:   r,
+					})
+				}
+			}
+		}
+	})
+	for _, name := range document.typeNames {
+		referenceEntryInfos = append(referenceEntryInfos, entryInfo{
+			ref: name.fqn,
+			r:   name.location.Range,
+		})
+	}
+	s.indexDocumentSymbols(document, batch, documentSymbols)
+	s.refIndex.index(s, document, batch, referenceEntryInfos)
+}
+
+func (s *Store) indexDocumentSymbols(document *Document, batch storage.Batch, symbols []documentSymbol) {
+	uri := document.GetURI()
+	entry := newEntry(documentSymbolsCollection, uri)
+	entry.e.WriteInt(len(symbols))
+	for _, symbol := range symbols {
+		symbol.serialise(entry.e)
+	}
+	writeEntry(batch, entry)
+}
+
+func (s *Store) indexName(batch storage.Batch, document *Document, indexable NameIndexable, key string) {
+	entries := createCompletionEntries(document.GetURI(), indexable, key)
+	for _, entry := range entries {
+		writeEntry(batch, entry)
+	}
+}
+
+func writeEntry(batch storage.Batch, entry *entry) {
+	batch.Put(entry.getKeyBytes(), entry.bytes())
+}
+
+// GetURI returns the store URI
+func (s *Store) GetURI() protocol.DocumentURI {
+	return s.uri
+}
+
+// IsSymbolValid returns true if the given symbol matches all predicates of the given options
+func isSymbolValid(symbol Symbol, options SearchOptions) bool {
+	if len(options.predicates) == 0 {
+		return true
+	}
+	allTrue := true
+	for _, predicate := range options.predicates {
+		if !predicate(symbol) {
+			allTrue = false
+			break
+		}
+	}
+	return allTrue
+}
+
+func namespacePredicate(scope string) func(s Symbol) bool {
+	if scope == "" {
+		return func(s Symbol) bool {
+			return true
+		}
+	}
+	return func(s Symbol) bool {
+		symbolScope := ""
+		if v, ok := s.(HasScope); ok {
+			symbolScope = v.GetScope()
+		}
+		return symbolScope == scope
+	}
+}
+
+func nestedNamespacePredicate(scope string) func(s Symbol) bool {
+	return func(s Symbol) bool {
+		v, ok := s.(HasScope)
+		return scope == "" || scope == "\\" || ok && strings.HasPrefix(v.GetScope()+"\\", scope+"\\")
+	}
+}
+
+// SearchNamespaces searches namespaces with the given keyword, and keyword can contain
+// a namespace scope, e.g. Namespace1\NestedNams
+func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]string, SearchResult) {
+	options = options.restart()
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	// In namespace normally there isn't \ but somehow it has ignores in because
+	// namespaces are not indexed with \
+	if scope == "\\" {
+		scope = ""
+	}
+	namespaces := []string{}
+	unique := mapset.New[string]()
+	collection := namespaceCompletionIndex
+	if len(scope) != 0 {
+		collection += KeySep + scope
+	}
+	query := searchQuery{
+		collection: collection,
+		keyword:    keyword,
+		onData: func(cv CompletionValue) onDataResult {
+			// A namespace is indexed once for each document declaring it
+			namespace := strings.Split(string(cv), KeySep)[0]
+			if !unique.Has(namespace) {
+				unique.Put(namespace)
+				namespaces = append(namespaces, namespace)
+				return onDataResult{options.IsLimitReached()}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return namespaces, result
+}
+
+// GetClasses searches all classes with the given name
+func (s *Store) GetClasses(name string) []*Class {
+	entry := newEntry(classCollection, name+KeySep)
+	classes := []*Class{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		classes = append(classes, ReadClass(d))
+	})
+	return classes
+}
+
+func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onDataResult) {
+	if scope[len(scope)-1] != '\\' {
+		scope += "\\"
+	}
+	entry := newEntry(classCollection, scope)
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		class := ReadClass(storage.NewDecoder(it.Value()))
+		result := onData(class)
+		if result.shouldStop {
+			it.Stop()
+		}
+	})
+}
+
+// SearchClasses uses the completion index to search for classes with the given keyword.
+// `keyword` can contain scope \Namespace1\Cl
+func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
+	options = options.restart()
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	classes := []*Class{}
+	if scope != "" && keyword == "" {
+		isComplete := true
+		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
+			if isSymbolValid(class, options) {
+				classes = append(classes, class)
+				if options.IsLimitReached() {
+					isComplete = false
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		})
+		return classes, SearchResult{isComplete}
+	}
+	// Classes of nested namespaces are included
+	options = options.WithPredicate(nestedNamespacePredicate(scope))
+	query := searchQuery{
+		collection: classCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(classCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			if len(value) == 0 {
+				log.Printf("Empty class: %v", strings.Split(string(completionValue), KeySep))
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			class := ReadClass(d)
+			if isSymbolValid(class, options) {
+				classes = append(classes, class)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return classes, result
+}
+
+// GetInterfaces searches all the interfaces with the given name from the disk storage
+func (s *Store) GetInterfaces(name string) []*Interface {
+	entry := newEntry(interfaceCollection, name+KeySep)
+	interfaces := []*Interface{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		interfaces = append(interfaces, ReadInterface(d))
+	})
+	return interfaces
+}
+
+// SearchInterfaces uses completion index to search for interfaces with the given keyword.
+// `keyword` can contain scope \Namespace1\Cl
+func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Interface, SearchResult) {
+	options = options.restart()
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	interfaces := []*Interface{}
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: interfaceCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(interfaceCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			theInterface := ReadInterface(d)
+			if isSymbolValid(theInterface, options) {
+				interfaces = append(interfaces, theInterface)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return interfaces, result
+}
+
+// GetTraits searches for all the traits with the given name from the disk storage
+func (s *Store) GetTraits(name string) []*Trait {
+	entry := newEntry(traitCollection, name+KeySep)
+	traits := []*Trait{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		traits = append(traits, ReadTrait(d))
+	})
+	return traits
+}
+
+// SearchTraits uses completion index to search traits matching the given keyword.
+// `keyword` can contain scope
+func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, SearchResult) {
+	options = options.restart()
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	traits := []*Trait{}
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: traitCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(traitCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			trait := ReadTrait(d)
+			if isSymbolValid(trait, options) {
+				traits = append(traits, trait)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return traits, result
+}
+
+// GetFunctions searches all functions with the given name from the disk storage
+func (s *Store) GetFunctions(name string) []*Function {
+	entry := newEntry(functionCollection, name+KeySep)
+	functions := []*Function{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		functions = append(functions, ReadFunction(d))
+	})
+	return functions
+}
+
+// SearchFunctions uses the completion index to search functions matching the given keyword.
+// `keyword` can contain scope
+func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Function, SearchResult) {
+	options = options.restart()
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	functions := []*Function{}
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: functionCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(functionCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			if len(value) == 0 {
+				log.Printf("Empty function: %v", strings.Split(string(completionValue), KeySep))
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			function := ReadFunction(d)
+			if isSymbolValid(function, options) {
+				functions = append(functions, function)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return functions, result
+}
+
+// GetConsts searches all the consts with the given name from the disk storage
+func (s *Store) GetConsts(name string) []*Const {
+	entry := newEntry(constCollection, name+KeySep)
+	consts := []*Const{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		consts = append(consts, ReadConst(d))
+	})
+	return consts
+}
+
+// SearchConsts uses completion index to search constants matching the given keyword
+func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
+	options = options.restart()
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	consts := []*Const{}
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: constCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(constCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			constant := ReadConst(d)
+			if isSymbolValid(constant, options) {
+				consts = append(consts, constant)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return consts, result
+}
+
+// GetDefines searches all `define()` with the given name from the disk storage
+func (s *Store) GetDefines(name string) []*Define {
+	entry := newEntry(defineCollection, name+KeySep)
+	defines := []*Define{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		defines = append(defines, ReadDefine(d))
+	})
+	return defines
+}
+
+// SearchDefines uses completion index to search `define()`s matching the given keyword
+func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
+	options = options.restart()
+	scope, keyword := GetScopeAndNameFromString(keyword)
+	defines := []*Define{}
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: defineCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(defineCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			define := ReadDefine(d)
+			if isSymbolValid(define, options) {
+				defines = append(defines, define)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return defines, result
+}
+
+// GetMethods searches for all methods with the same scope and name as given
+func (s *Store) GetMethods(scope string, name string) []*Method {
+	entry := newEntry(methodCollection, scope+KeySep+strings.ToLower(name)+KeySep)
+	methods := []*Method{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		methods = append(methods, ReadMethod(d))
+	})
+	return methods
+}
+
+// GetAllMethods returns all the methods with the given scope.
+// This function can be faster than `SearchMethods` for searching only methods
+// under given scope, because this only scans methods which have the given scope
+func (s *Store) GetAllMethods(scope string) []*Method {
+	entry := newEntry(methodCollection, scope+KeySep)
+	methods := []*Method{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		methods = append(methods, ReadMethod(d))
+	})
+	return methods
+}
+
+// SearchMethods uses completion index to search methods matching the given scope and keyword.
+// This function is slow and should only be used for searching method store-wide, because the completion
+// index will scan through all the methods in the store and compare its scope.
+// If the scope is "" all methods matching will be returned.
+func (s *Store) SearchMethods(scope string, keyword string, options SearchOptions) ([]*Method, SearchResult) {
+	options = options.restart()
+	if keyword == "" {
+		return []*Method{}, SearchResult{false}
+	}
+
+	methods := []*Method{}
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: methodCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(methodCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			if len(value) == 0 {
+				log.Printf("Empty methods: scope %s, %v", scope, strings.Split(string(completionValue), KeySep))
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			method := ReadMethod(d)
+			if isSymbolValid(method, options) {
+				methods = append(methods, method)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return methods, result
+}
+
+// GetClassConsts searches all class constants with the given scope and name from the disk
+// storage.
+// The word class is used loosely in here which means it can be interfaces/traits
+func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
+	entry := newEntry(classConstCollection, scope+KeySep+name+KeySep)
+	classConsts := []*ClassConst{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		classConsts = append(classConsts, ReadClassConst(d))
+	})
+	return classConsts
+}
+
+// GetAllClassConsts returns all the class constants under the given scope.
+// The word class is used loosely in here, which means it can be classes/interfaces/traits
+func (s *Store) GetAllClassConsts(scope string) []*ClassConst {
+	entry := newEntry(classConstCollection, scope+KeySep)
+	classConsts := []*ClassConst{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		classConsts = append(classConsts, ReadClassConst(d))
+	})
+	return classConsts
+}
+
+// SearchClassConsts uses completion index to search class constants matching the
+// given scope and keyword.
+// If the scope is empty all matched class constants are returned.
+// The word class is used loosely in here, which means it can be classes/interfaces/traits
+func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOptions) ([]*ClassConst, SearchResult) {
+	options = options.restart()
+	classConsts := []*ClassConst{}
+	if keyword == "" {
+		if scope == "" {
+			return classConsts, SearchResult{false}
+		}
+		for _, classConst := range s.GetAllClassConsts(scope) {
+			if !isSymbolValid(classConst, options) {
+				continue
+			}
+			classConsts = append(classConsts, classConst)
+			if options.IsLimitReached() {
+				return classConsts, SearchResult{false}
+			}
+		}
+		return classConsts, SearchResult{true}
+	}
+
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: classConstCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(classConstCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			classConst := ReadClassConst(d)
+			if isSymbolValid(classConst, options) {
+				classConsts = append(classConsts, classConst)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return classConsts, result
+}
+
+// GetProperties searches all properties with the given scope and name from the disk storage
+func (s *Store) GetProperties(scope string, name string) []*Property {
+	entry := newEntry(propertyCollection, scope+KeySep+name+KeySep)
+	properties := []*Property{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		properties = append(properties, ReadProperty(d))
+	})
+	return properties
+}
+
+// GetAllProperties searches all properties with the given scope from the disk storage
+func (s *Store) GetAllProperties(scope string) []*Property {
+	entry := newEntry(propertyCollection, scope+KeySep)
+	properties := []*Property{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		properties = append(properties, ReadProperty(d))
+	})
+	return properties
+}
+
+// SearchProperties uses completion index to search properties matching the given scope
+// and name. If the scope is "", this will forward to `GetAllProperties`, and ignore keyword
+func (s *Store) SearchProperties(scope string, keyword string, options SearchOptions) ([]*Property, SearchResult) {
+	options = options.restart()
+	properties := []*Property{}
+	if keyword == "" {
+		if scope == "" {
+			return properties, SearchResult{false}
+		}
+		for _, property := range s.GetAllProperties(scope) {
+			if !isSymbolValid(property, options) {
+				continue
+			}
+			properties = append(properties, property)
+			if options.IsLimitReached() {
+				return properties, SearchResult{false}
+			}
+		}
+		return properties, SearchResult{true}
+	}
+
+	options = options.WithPredicate(namespacePredicate(scope))
+	query := searchQuery{
+		collection: propertyCompletionIndex,
+		keyword:    keyword,
+		onData: func(completionValue CompletionValue) onDataResult {
+			entry := newEntry(propertyCollection, string(completionValue))
+			value, err := s.db.Get(entry.getKeyBytes())
+			if err != nil {
+				return onDataResult{false}
+			}
+			d := storage.NewDecoder(value)
+			property := ReadProperty(d)
+			if isSymbolValid(property, options) {
+				properties = append(properties, property)
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
+			}
+			return onDataResult{false}
+		},
+	}
+	result := searchCompletions(s.comDB, query)
+	return properties, result
+}
+
+// GetGlobalVariables searches all global variables with the given name from the disk storage
+func (s *Store) GetGlobalVariables(name string) []*GlobalVariable {
+	entry := newEntry(globalVariableCollection, name+KeySep)
+	results := []*GlobalVariable{}
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		d := storage.NewDecoder(it.Value())
+		results = append(results, ReadGlobalVariable(d))
+	})
+	return results
+}
+
+// GetReferences returns the locations of the reference to an FQN
+func (s *Store) GetReferences(ref string) []protocol.Location {
+	return s.refIndex.search(s, ref)
+}
+
+// SymToRefs converts a HasTypes symbol to reference strings
+func SymToRefs(document *Document, sym HasTypes) []string {
+	var refs []string
+	switch v := sym.(type) {
+	case *FunctionCall:
+		possibleFQNs := document.ImportTableAtPos(sym.GetLocation().Range.Start).FunctionPossibleFQNs(NewTypeString(v.Name))
+		for _, fqn := range possibleFQNs {
+			sb := &strings.Builder{}
+			sb.WriteString(fqn)
+			sb.WriteString("()")
+			refs = append(refs, sb.String())
+		}
+	case *ClassTypeDesignator, *TypeDeclaration, *ClassAccess, *TraitAccess, *InterfaceAccess:
+		if c, ok := sym.(*ClassAccess); ok && IsNameRelative(c.Name) {
+			break
+		}
+		for _, t := range sym.GetTypes().Resolve() {
+			refs = append(refs, t.GetFQN())
+		}
+	case HasTypesHasScope:
+		sb := &strings.Builder{}
+		sb.WriteString(".")
+		sb.WriteString(v.MemberName())
+		refs = append(refs, sb.String())
+	}
+	return refs
+}
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index c1aff2e..b54cdf7 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -1,102 +1,102 @@
-package lsp
-
-import (
-	"context"
-	"io/fs"
-	"log"
-	"os"
-	"path/filepath"
-	"strings"
-	"sync"
-
-	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
-	"github.com/john-nguyen09/phpintel/internal/xcontext"
-	"github.com/john-nguyen09/phpintel/util"
-)
-
-func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
-	uri := params.TextDocument.URI
-	store := s.store.getStore(uri)
-	if store == nil {
-		return nil
-	}
-	document := store.OpenDocument(uri, []byte(params.TextDocument.Text))
-	s.provideDiagnostics(ctx, store, document)
-	return nil
-}
-
-func (s *Server) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	return s.store.changeDocument(ctx, params)
-}
-
-func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
-	uri := params.TextDocument.URI
-	store := s.store.getStore(uri)
-	if store == nil {
-		return nil
-	}
-	store.CloseDocument(ctx, uri)
-	return nil
-}
-
-func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.DidChangeWatchedFilesParams) error {
-	ctx = xcontext.Detach(ctx)
-	go func() {
-		var wg sync.WaitGroup
-		changes := append(params.Changes[:0:0], params.Changes...)
-		for _, change := range changes {
-			if change.Type == protocol.Deleted {
-				s.store.deleteJobs <- change.URI
-				continue
-			}
-
-			filePath, err := util.URIToPath(change.URI)
-			if err != nil {
-				continue
-			}
-			stats, err := os.Stat(filePath)
-			if err != nil {
-				if !os.IsNotExist(err) {
-					log.Printf("didChangeWatchedFiles error: %v, filePath: %s", err, filePath)
-				}
-				continue
-			}
-			matched := strings.HasSuffix(filePath, ".php")
-
-			if matched && !stats.IsDir() {
-				wg.Add(1)
-				s.store.createJobs <- creatorJob{
-					uri:       change.URI,
-					ctx:       ctx,
-					waitGroup: &wg,
-				}
-				continue
-			}
-
-			if !stats.IsDir() {
-				continue
-			}
-
-			err = filepath.WalkDir(filePath, func(path string, d fs.DirEntry, err error) error {
-				if err != nil {
-					return err
-				}
-				if !d.IsDir() && strings.HasSuffix(path, ".php") {
-					wg.Add(1)
-					s.store.createJobs <- creatorJob{
-						uri:       util.PathToURI(path),
-						ctx:       ctx,
-						waitGroup: &wg,
-					}
-				}
-				return nil
-			})
-
-			if err != nil {
-				log.Println(err)
-			}
-		}
-		wg.Wait()
-	}()
-	return nil
-}
+package lsp
+
+import (
+	"context"
+	"io/fs"
+	"log"
+	"os"
+	"path/filepath"
+	"strings"
+	"sync"
+
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
+	"github.com/john-nguyen09/phpintel/util"
+)
+
+func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
+	uri := params.TextDocument.URI
+	store := s.store.getStore(uri)
+	if store == nil {
+		return nil
+	}
+	document := store.OpenDocument(uri, []byte(params.TextDocument.Text))
+	s.provideDiagnostics(ctx, store, document)
+	return nil
+}
+
+func (s *Server) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
+	return s.store.changeDocument(ctx, params)
+}
+
+func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
+	uri := params.TextDocument.URI
+	store := s.store.getStore(uri)
+	if store == nil {
+		return nil
+	}
+	store.CloseDocument(ctx, uri)
+	return nil
+}
+
+func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.DidChangeWatchedFilesParams) error {
+	ctx = xcontext.Detach(ctx)
+	go func() {
+		var wg sync.WaitGroup
+		changes := append(params.Changes[:0:0], params.Changes...)
+		for _, change := range changes {
+			if change.Type == protocol.Deleted {
+				s.store.deleteJobs <- change.URI
+				continue
+			}
+
+			filePath, err := util.URIToPath(change.URI)
+			if err != nil {
+				continue
+			}
+			stats, err := os.Stat(filePath)
+			if err != nil {
+				if !os.IsNotExist(err) {
+					log.Printf("didChangeWatchedFiles error: %v, filePath: %s", err, filePath)
+				}
+				continue
+			}
+			matched := strings.HasSuffix(filePath, ".php")
+
+			if matched && !stats.IsDir() {
+				wg.Add(1)
+				s.store.createJobs <- creatorJob{
+					uri:       change.URI,
+					ctx:       ctx,
+					waitGroup: &wg,
+				}
+				continue
+			}
+
+			if !stats.IsDir() {
+				continue
+			}
+
+			err = filepath.WalkDir(filePath, func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					return err
+				}
+				if !d.IsDir() && strings.HasSuffix(path, ".php") {
+					wg.Add(1)
+					s.store.createJobs <- creatorJob{
+						uri:       util.PathToURI(path),
+						ctx:       ctx,
+						waitGroup: &wg,
+					}
+				}
+				return nil
+			})
+
+			if err != nil {
+				log.Println(err)
+			}
+		}
+		wg.Wait()
+	}()
+	return nil
+}
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 802e1bb..820de9c 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -1,335 +1,335 @@
-package lsp
-
-import (
-	"context"
-	"log"
-	"net/url"
-	"path/filepath"
-	"strings"
-	"sync"
-	"time"
-
-	"github.com/john-nguyen09/phpintel/analysis"
-	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
-	"github.com/john-nguyen09/phpintel/internal/xcontext"
-	"github.com/john-nguyen09/phpintel/util"
-)
-
-const numCreators int = 2
-const numDeletors int = 1
-
-type creatorJob struct {
-	uri       string
-	ctx       context.Context
-	waitGroup *sync.WaitGroup
-}
-
-type workspaceStore struct {
-	server     *Server
-	ctx        context.Context
-	mu         sync.RWMutex // guards stores
-	stores     []*analysis.Store
-	createJobs chan creatorJob
-	deleteJobs chan string
-}
-
-func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
-	workspaceStore := &workspaceStore{
-		server:     server,
-		ctx:        ctx,
-		stores:     []*analysis.Store{},
-		createJobs: make(chan creatorJob),
-		deleteJobs: make(chan string),
-	}
-	for i := 0; i < numCreators; i++ {
-		go workspaceStore.newCreator(i)
-	}
-	for i := 0; i < numDeletors; i++ {
-		go workspaceStore.newDeletor(i)
-	}
-	return workspaceStore
-}
-
-func (s *workspaceStore) newCreator(id int) {
-	for job := range s.createJobs {
-		uri, err := util.DecodeURIFromQuery(job.uri)
-		if err != nil {
-			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
-			if job.waitGroup != nil {
-				job.waitGroup.Done()
-			}
-			continue
-		}
-		s.indexDocument(job.ctx, uri)
-		if job.waitGroup != nil {
-			job.waitGroup.Done()
-		}
-	}
-}
-
-// indexDocument indexes the document in the store it belongs to, also if the folders
-// change meanwhile
-func (s *workspaceStore) indexDocument(ctx context.Context, uri string) {
-	store := s.getStore(uri)
-	for store != nil {
-		store.CompareAndIndexDocument(ctx, uri)
-		current := s.getStore(uri)
-		if current == store {
-			return
-		}
-		store.DeleteDocument(uri)
-		store = current
-	}
-}
-
-func (s *workspaceStore) newDeletor(id int) {
-	for uri := range s.deleteJobs {
-		uri, err := util.DecodeURIFromQuery(uri)
-		if err != nil {
-			log.Printf("workspaceStore.newDeletor: %v", err)
-			continue
-		}
-		for _, store := range s.storesAbout(uri) {
-			store.RemoveDocuments(s.ctx, uri)
-		}
-	}
-}
-
-func (s *workspaceStore) close() {
-	s.mu.Lock()
-	stores := s.stores
-	s.stores = nil
-	s.mu.Unlock()
-	for _, store := range stores {
-		store.Close()
-	}
-}
-
-func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
-	u, err := url.Parse(uri)
-	if err != nil {
-		log.Printf("%s: %v", uri, err)
-		return
-	}
-	var (
-		fs       protocol.FS
-		rootPath string = uri
-	)
-	switch {
-	case s.server.fileExtensionsSupported:
-		fs = protocol.NewLSPFS(s.server.Conn)
-	case u.Scheme == "file":
-		var err error
-		fs = protocol.NewFileFS()
-		rootPath, err = util.URIToPath(uri)
-		if err != nil {
-			log.Printf("addView: %s - %v", uri, err)
-			return
-		}
-	}
-	if fs == nil {
-		log.Printf("No FS found for: %s", uri)
-		return
-	}
-	if s.hasStore(uri) {
-		return
-	}
-	storagePath := filepath.Join(getDataDir(), "data", util.GetURIID(uri))
-	store, err := analysis.NewStore(fs, uri, storagePath)
-	if err != nil {
-		log.Printf("%s: %v", uri, err)
-		return
-	}
-	store.Migrate(protocol.GetVersion(ctx))
-	store.LoadStubs()
-	s.addStore(store)
-	if enclosing := s.enclosingStore(uri); enclosing != nil {
-		// The documents below the folder are its own from now on
-		for _, document := range enclosing.TakeOpenDocuments(uri) {
-			store.AdoptDocument(document)
-		}
-		enclosing.DeleteFolder(uri)
-	}
-	s.indexFolder(ctx, store, rootPath, true)
-	err = s.registerFileWatcher(ctx, uri, server)
-	if err != nil {
-		log.Printf("addView error: %v", err)
-	}
-}
-
-func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
-	store := s.removeStore(uri)
-	if store == nil {
-		return
-	}
-	if enclosing := s.getStore(uri); enclosing != nil {
-		// The enclosing folder is in charge of the documents again
-		for _, document := range store.TakeOpenDocuments(uri) {
-			enclosing.AdoptDocument(document)
-		}
-		rootPath := uri
-		if _, ok := enclosing.FS.(*protocol.FileFS); ok {
-			rootPath, _ = util.URIToPath(uri)
-		}
-		s.indexFolder(ctx, enclosing, rootPath, false)
-	}
-	store.Close()
-	s.unregisterFileWatcher(ctx, uri, server)
-}
-
-func getFileWatcherID(base string) string {
-	return base + "-fileWatcher"
-}
-
-func (s *workspaceStore) registerFileWatcher(ctx context.Context, base string, server *Server) error {
-	// fileExtensions := "php"
-	regParams := protocol.DidChangeWatchedFilesRegistrationOptions{
-		Watchers: []protocol.FileSystemWatcher{{
-			GlobPattern: "**/*",
-			Kind:        int(protocol.WatchCreate + protocol.WatchChange + protocol.WatchDelete),
-		}},
-	}
-	return server.client.RegisterCapability(ctx, &protocol.RegistrationParams{
-		Registrations: []protocol.Registration{
-			{
-				ID: getFileWatcherID(base), Method: "workspace/didChangeWatchedFiles", RegisterOptions: regParams,
-			},
-		},
-	})
-}
-
-func (s *workspaceStore) unregisterFileWatcher(ctx context.Context, path string, server *Server) error {
-	return server.client.UnregisterCapability(ctx, &protocol.UnregistrationParams{
-		Unregisterations: []protocol.Unregistration{
-			{
-				ID: getFileWatcherID(path), Method: "workspace/didChangeWatchedFiles",
-			},
-		},
-	})
-}
-
-// indexFolder indexes the documents of the folder in the background, forgetting those
-// which do not exist any more if it is the store's own folder
-func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store, rootPath string, isStoreFolder bool) {
-	// The indexing outlives the message which has started it
-	ctx = xcontext.Detach(ctx)
-	var waitGroup sync.WaitGroup
-	if isStoreFolder {
-		store.PrepareForIndexing()
-	}
-	go func() {
-		log.Println("Start indexing")
-		start := time.Now()
-		count := 0
-		if docs, err := store.FS.ListFiles(ctx, rootPath); err == nil {
-			for _, doc := range docs {
-				if strings.HasSuffix(doc.URI, ".php") {
-					count++
-					waitGroup.Add(1)
-					s.createJobs <- creatorJob{
-						uri:       store.FS.ConvertToURI(doc.URI),
-						ctx:       ctx,
-						waitGroup: &waitGroup,
-					}
-				}
-			}
-		} else {
-			log.Printf("indexFolder: %v", err)
-			return
-		}
-		waitGroup.Wait()
-		if isStoreFolder {
-			store.FinishIndexing()
-		}
-		elapsed := time.Since(start)
-		log.Printf("Finished indexing %d files in %s", count, elapsed)
-		util.PrintMemUsage()
-	}()
-}
-
-// getStore returns the store of the innermost folder containing the URI
-func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
-	return s.findStore(func(folder protocol.DocumentURI) bool {
-		return util.IsURIUnder(folder, uri)
-	})
-}
-
-// enclosingStore returns the store which contains the folder but is not the folder's
-func (s *workspaceStore) enclosingStore(uri protocol.DocumentURI) *analysis.Store {
-	return s.findStore(func(folder protocol.DocumentURI) bool {
-		return util.IsURIUnder(folder, uri) && !util.IsURIUnder(uri, folder)
-	})
-}
-
-func (s *workspaceStore) findStore(contains func(protocol.DocumentURI) bool) *analysis.Store {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-	var found *analysis.Store
-	for _, store := range s.stores {
-		if contains(store.GetURI()) && (found == nil || util.IsURIUnder(found.GetURI(), store.GetURI())) {
-			found = store
-		}
-	}
-	return found
-}
-
-// storesAbout returns the store the URI belongs to and, if it is a folder's, the
-// stores of the folders below it
-func (s *workspaceStore) storesAbout(uri protocol.DocumentURI) []*analysis.Store {
-	var stores []*analysis.Store
-	if store := s.getStore(uri); store != nil {
-		stores = append(stores, store)
-	}
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-	for _, store := range s.stores {
-		if util.IsURIUnder(uri, store.GetURI()) && !util.IsURIUnder(store.GetURI(), uri) {
-			stores = append(stores, store)
-		}
-	}
-	return stores
-}
-
-func (s *workspaceStore) hasStore(uri protocol.DocumentURI) bool {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-	for _, store := range s.stores {
-		if store.GetURI() == uri {
-			return true
-		}
-	}
-	return false
-}
-
-func (s *workspaceStore) addStore(store *analysis.Store) {
-	s.mu.Lock()
-	defer s.mu.Unlock()
-	s.stores = append(s.stores[:len(s.stores):len(s.stores)], store)
-}
-
-// removeStore removes and returns the store of the folder, nil if there is none
-func (s *workspaceStore) removeStore(uri protocol.DocumentURI) *analysis.Store {
-	s.mu.Lock()
-	defer s.mu.Unlock()
-	for i, store := range s.stores {
-		if store.GetURI() == uri {
-			s.stores = append(s.stores[:i:i], s.stores[i+1:]...)
-			return store
-		}
-	}
-	return nil
-}
-
-func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	uri := params.TextDocument.URI
-	store := s.getStore(uri)
-	if store == nil {
-		return nil
-	}
-	document := store.ChangeDocument(uri, params.ContentChanges)
-	if document == nil {
-		return nil
-	}
-	s.server.provideDiagnostics(ctx, store, document)
-	return nil
-}
+package lsp
+
+import (
+	"context"
+	"log"
+	"net/url"
+	"path/filepath"
+	"strings"
+	"sync"
+	"time"
+
+	"github.com/john-nguyen09/phpintel/analysis"
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
+	"github.com/john-nguyen09/phpintel/util"
+)
+
+const numCreators int = 2
+const numDeletors int = 1
+
+type creatorJob struct {
+	uri       string
+	ctx       context.Context
+	waitGroup *sync.WaitGroup
+}
+
+type workspaceStore struct {
+	server     *Server
+	ctx        context.Context
+	mu         sync.RWMutex // guards stores
+	stores     []*analysis.Store
+	createJobs chan creatorJob
+	deleteJobs chan string
+}
+
+func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
+	workspaceStore := &workspaceStore{
+		server:     server,
+		ctx:        ctx,
+		stores:     []*analysis.Store{},
+		createJobs: make(chan creatorJob),
+		deleteJobs: make(chan string),
+	}
+	for i := 0; i < numCreators; i++ {
+		go workspaceStore.newCreator(i)
+	}
+	for i := 0; i < numDeletors; i++ {
+		go workspaceStore.newDeletor(i)
+	}
+	return workspaceStore
+}
+
+func (s *workspaceStore) newCreator(id int) {
+	for job := range s.createJobs {
+		uri, err := util.DecodeURIFromQuery(job.uri)
+		if err != nil {
+			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
+			if job.waitGroup != nil {
+				job.waitGroup.Done()
+			}
+			continue
+		}
+		s.indexDocument(job.ctx, uri)
+		if job.waitGroup != nil {
+			job.waitGroup.Done()
+		}
+	}
+}
+
+// indexDocument indexes the document in the store it belongs to, also if the folders
+// change meanwhile
+func (s *workspaceStore) indexDocument(ctx context.Context, uri string) {
+	store := s.getStore(uri)
+	for store != nil {
+		store.CompareAndIndexDocument(ctx, uri)
+		current := s.getStore(uri)
+		if current == store {
+			return
+		}
+		store.DeleteDocument(uri)
+		store = current
+	}
+}
+
+func (s *workspaceStore) newDeletor(id int) {
+	for uri := range s.deleteJobs {
+		uri, err := util.DecodeURIFromQuery(uri)
+		if err != nil {
+			log.Printf("workspaceStore.newDeletor: %v", err)
+			continue
+		}
+		for _, store := range s.storesAbout(uri) {
+			store.RemoveDocuments(s.ctx, uri)
+		}
+	}
+}
+
+func (s *workspaceStore) close() {
+	s.mu.Lock()
+	stores := s.stores
+	s.stores = nil
+	s.mu.Unlock()
+	for _, store := range stores {
+		store.Close()
+	}
+}
+
+func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	u, err := url.Parse(uri)
+	if err != nil {
+		log.Printf("%s: %v", uri, err)
+		return
+	}
+	var (
+		fs       protocol.FS
+		rootPath string = uri
+	)
+	switch {
+	case s.server.fileExtensionsSupported:
+		fs = protocol.NewLSPFS(s.server.Conn)
+	case u.Scheme == "file":
+		var err error
+		fs = protocol.NewFileFS()
+		rootPath, err = util.URIToPath(uri)
+		if err != nil {
+			log.Printf("addView: %s - %v", uri, err)
+			return
+		}
+	}
+	if fs == nil {
+		log.Printf("No FS found for: %s", uri)
+		return
+	}
+	if s.hasStore(uri) {
+		return
+	}
+	storagePath := filepath.Join(getDataDir(), "data", util.GetURIID(uri))
+	store, err := analysis.NewStore(fs, uri, storagePath)
+	if err != nil {
+		log.Printf("%s: %v", uri, err)
+		return
+	}
+	store.Migrate(protocol.GetVersion(ctx))
+	store.LoadStubs()
+	s.addStore(store)
+	if enclosing := s.enclosingStore(uri); enclosing != nil {
+		// The documents below the folder are its own from now on
+		for _, document := range enclosing.TakeOpenDocuments(uri) {
+			store.AdoptDocument(document)
+		}
+		enclosing.DeleteFolder(uri)
+	}
+	s.indexFolder(ctx, store, rootPath, true)
+	err = s.registerFileWatcher(ctx, uri, server)
+	if err != nil {
+		log.Printf("addView error: %v", err)
+	}
+}
+
+func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	store := s.removeStore(uri)
+	if store == nil {
+		return
+	}
+	if enclosing := s.getStore(uri); enclosing != nil {
+		// The enclosing folder is in charge of the documents again
+		for _, document := range store.TakeOpenDocuments(uri) {
+			enclosing.AdoptDocument(document)
+		}
+		rootPath := uri
+		if _, ok := enclosing.FS.(*protocol.FileFS); ok {
+			rootPath, _ = util.URIToPath(uri)
+		}
+		s.indexFolder(ctx, enclosing, rootPath, false)
+	}
+	store.Close()
+	s.unregisterFileWatcher(ctx, uri, server)
+}
+
+func getFileWatcherID(base string) string {
+	return base + "-fileWatcher"
+}
+
+func (s *workspaceStore) registerFileWatcher(ctx context.Context, base string, server *Server) error {
+	// fileExtensions := "php"
+	regParams := protocol.DidChangeWatchedFilesRegistrationOptions{
+		Watchers: []protocol.FileSystemWatcher{{
+			GlobPattern: "**/*",
+			Kind:        int(protocol.WatchCreate + protocol.WatchChange + protocol.WatchDelete),
+		}},
+	}
+	return server.client.RegisterCapability(ctx, &protocol.RegistrationParams{
+		Registrations: []protocol.Registration{
+			{
+				ID: getFileWatcherID(base), Method: "workspace/didChangeWatchedFiles", RegisterOptions: regParams,
+			},
+		},
+	})
+}
+
+func (s *workspaceStore) unregisterFileWatcher(ctx context.Context, path string, server *Server) error {
+	return server.client.UnregisterCapability(ctx, &protocol.UnregistrationParams{
+		Unregisterations: []protocol.Unregistration{
+			{
+				ID: getFileWatcherID(path), Method: "workspace/didChangeWatchedFiles",
+			},
+		},
+	})
+}
+
+// indexFolder indexes the documents of the folder in the background, forgetting those
+// which do not exist any more if it is the store's own folder
+func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store, rootPath string, isStoreFolder bool) {
+	// The indexing outlives the message which has started it
+	ctx = xcontext.Detach(ctx)
+	var waitGroup sync.WaitGroup
+	if isStoreFolder {
+		store.PrepareForIndexing()
+	}
+	go func() {
+		log.Println("Start indexing")
+		start := time.Now()
+		count := 0
+		if docs, err := store.FS.ListFiles(ctx, rootPath); err == nil {
+			for _, doc := range docs {
+				if strings.HasSuffix(doc.URI, ".php") {
+					count++
+					waitGroup.Add(1)
+					s.createJobs <- creatorJob{
+						uri:       store.FS.ConvertToURI(doc.URI),
+						ctx:       ctx,
+						waitGroup: &waitGroup,
+					}
+				}
+			}
+		} else {
+			log.Printf("indexFolder: %v", err)
+			return
+		}
+		waitGroup.Wait()
+		if isStoreFolder {
+			store.FinishIndexing()
+		}
+		elapsed := time.Since(start)
+		log.Printf("Finished indexing %d files in %s", count, elapsed)
+		util.PrintMemUsage()
+	}()
+}
+
+// getStore returns the store of the innermost folder containing the URI
+func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
+	return s.findStore(func(folder protocol.DocumentURI) bool {
+		return util.IsURIUnder(folder, uri)
+	})
+}
+
+// enclosingStore returns the store which contains the folder but is not the folder's
+func (s *workspaceStore) enclosingStore(uri protocol.DocumentURI) *analysis.Store {
+	return s.findStore(func(folder protocol.DocumentURI) bool {
+		return util.IsURIUnder(folder, uri) && !util.IsURIUnder(uri, folder)
+	})
+}
+
+func (s *workspaceStore) findStore(contains func(protocol.DocumentURI) bool) *analysis.Store {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	var found *analysis.Store
+	for _, store := range s.stores {
+		if contains(store.GetURI()) && (found == nil || util.IsURIUnder(found.GetURI(), store.GetURI())) {
+			found = store
+		}
+	}
+	return found
+}
+
+// storesAbout returns the store the URI belongs to and, if it is a folder's, the
+// stores of the folders below it
+func (s *workspaceStore) storesAbout(uri protocol.DocumentURI) []*analysis.Store {
+	var stores []*analysis.Store
+	if store := s.getStore(uri); store != nil {
+		stores = append(stores, store)
+	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	for _, store := range s.stores {
+		if util.IsURIUnder(uri, store.GetURI()) && !util.IsURIUnder(store.GetURI(), uri) {
+			stores = append(stores, store)
+		}
+	}
+	return stores
+}
+
+func (s *workspaceStore) hasStore(uri protocol.DocumentURI) bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	for _, store := range s.stores {
+		if store.GetURI() == uri {
+			return true
+		}
+	}
+	return false
+}
+
+func (s *workspaceStore) addStore(store *analysis.Store) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.stores = append(s.stores[:len(s.stores):len(s.stores)], store)
+}
+
+// removeStore removes and returns the store of the folder, nil if there is none
+func (s *workspaceStore) removeStore(uri protocol.DocumentURI) *analysis.Store {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	for i, store := range s.stores {
+		if store.GetURI() == uri {
+			s.stores = append(s.stores[:i:i], s.stores[i+1:]...)
+			return store
+		}
+	}
+	return nil
+}
+
+func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
+	uri := params.TextDocument.URI
+	store := s.getStore(uri)
+	if store == nil {
+		return nil
+	}
+	document := store.ChangeDocument(uri, params.ContentChanges)
+	if document == nil {
+		return nil
+	}
+	s.server.provideDiagnostics(ctx, store, document)
+	return nil
+}
-- 
2.43.0


From 088e2c4a2306b705304fa2ed74c227180f2b1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:12 +0000
Subject: [PATCH 30/57] fix: a removed folder's documents are compared again by
 the enclosing folder

A document which the enclosing folder was still reading when the folder was
added, and whose file was deleted while it belonged to the folder, stayed
indexed in the enclosing folder once the folder was removed.
---
 internal/lsp/workspaceStore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 820de9c..3d0a13f 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -172,6 +172,9 @@ func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri pro
 			rootPath, _ = util.URIToPath(uri)
 		}
 		s.indexFolder(ctx, enclosing, rootPath, false)
+		// A document which has been deleted while it was the folder's might still be being
+		// indexed in the enclosing folder, from before the folder was added
+		go enclosing.RemoveDocuments(xcontext.Detach(ctx), uri)
 	}
 	store.Close()
 	s.unregisterFileWatcher(ctx, uri, server)
-- 
2.43.0


From 29491f9e137799075003bf03cf8ce9674d0bf58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:18 +0000
Subject: [PATCH 31/57] fix: a document whose file cannot be read is not exempt
 from the folder's clean-up

---
 analysis/store.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 4cb4819..01348db 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -461,9 +461,8 @@ func (s *Store) indexedURIsUnder(folder protocol.DocumentURI) []string {
 // An open document is left alone, because its contents is not the file's
 func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) {
 	s.lockDocument(uri, func() {
-		s.syncedDocumentURIs.Remove(uri)
-		if s.openedDocument(uri) == nil {
-			s.compareAndIndex(ctx, uri, false)
+		if s.openedDocument(uri) != nil || s.compareAndIndex(ctx, uri, false) {
+			s.syncedDocumentURIs.Remove(uri)
 		}
 	})
 }
@@ -486,22 +485,24 @@ func (s *Store) RemoveDocuments(ctx context.Context, uri string) {
 	}
 }
 
-func (s *Store) compareAndIndex(ctx context.Context, uri string, deleteIfUnreadable bool) {
+// compareAndIndex returns whether the file could be read
+func (s *Store) compareAndIndex(ctx context.Context, uri string, deleteIfUnreadable bool) bool {
 	data, err := s.FS.ReadFile(ctx, uri)
 	if err != nil {
 		log.Printf("Cannot read %s: %v", uri, err)
 		if deleteIfUnreadable || errors.Is(err, fs.ErrNotExist) {
 			s.deleteDocument(uri)
 		}
-		return
+		return false
 	}
 	document := NewDocument(uri, data)
 	savedMD5, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
 	if err == nil && bytes.Equal(document.GetHash(), savedMD5) {
-		return
+		return true
 	}
 	document.Load()
 	s.SyncDocument(document)
+	return true
 }
 
 // SyncDocument writes all definition symbols and indexes to the disk
-- 
2.43.0


From f3b319772c1108d828f702bbbb768ec05f63a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:30 +0000
Subject: [PATCH 32/57] fix: members after an anonymous class, and code outside
 classes, belong to the class they are in

---
 analysis/document.go  | 25 +++++++++++++++----------
 analysis/interface.go |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index f4f3572..08660af 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -412,12 +412,15 @@ func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Pos
 }
 
 // Even though the name indicates class but actually this will also
-// return interface and trait
+// return interface and trait, it is the innermost one being analysed
 func (s *Document) getLastClass() Symbol {
-	if len(s.classStack) == 0 {
-		return nil
+	for i := len(s.blockStack) - 1; i >= 0; i-- {
+		switch s.blockStack[i].(type) {
+		case *Class, *Interface, *Trait:
+			return s.blockStack[i]
+		}
 	}
-	return s.classStack[len(s.classStack)-1]
+	return nil
 }
 
 // ClassAt returns a class, interface or trait at the position
@@ -467,18 +470,20 @@ func (s *Document) GetClassScopeAtSymbol(symbol Symbol) string {
 		return v.Name.GetFQN()
 	case *Interface:
 		return v.Name.GetFQN()
+	case *Trait:
+		return v.Name.GetFQN()
 	}
 	return ""
 }
 
 func (s *Document) getClassAtPos(pos protocol.Position) Symbol {
-	index := sort.Search(len(s.classStack), func(i int) bool {
-		return protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) <= 0
-	})
-	if index >= len(s.classStack) {
-		return nil
+	// An inner class comes after the one it is in
+	for i := len(s.classStack) - 1; i >= 0; i-- {
+		if protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) == 0 {
+			return s.classStack[i]
+		}
 	}
-	return s.classStack[index]
+	return nil
 }
 
 func (s *Document) NodeSpineAt(offset int) util.NodeStack {
diff --git a/analysis/interface.go b/analysis/interface.go
index 5d69b6b..251207a 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -39,13 +39,13 @@ func newInterface(a analyser, document *Document, node *phrase.Phrase) Symbol {
 			switch p.Type {
 			case phrase.InterfaceDeclarationHeader:
 				theInterface.analyseHeader(document, p, phpDoc)
+				theInterface.Name.SetNamespace(document.currImportTable().GetNamespace())
 			case phrase.InterfaceDeclarationBody:
 				scanForChildren(a, document, p)
 			}
 		}
 		child = traverser.Advance()
 	}
-	theInterface.Name.SetNamespace(document.currImportTable().GetNamespace())
 	document.popBlock()
 	return nil
 }
-- 
2.43.0


From 357fa2ca9b5ec9e7c717bb10c3a242d34b0ded81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:52 +0000
Subject: [PATCH 33/57] fix: an existing file which cannot be read is not
 forgotten after indexing its folder

---
 analysis/store.go              |  6 ++++++
 internal/lsp/workspaceStore.go | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index 01348db..159bbb7 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -580,6 +580,12 @@ func (s *Store) PrepareForIndexing() {
 	}
 }
 
+// RetainDocument exempts the document from being deleted by FinishIndexing, because
+// its file exists even if it cannot be read
+func (s *Store) RetainDocument(uri protocol.DocumentURI) {
+	s.syncedDocumentURIs.Remove(uri)
+}
+
 // FinishIndexing checks for all URIs that are not removed from the map
 // and delete them, because if the file exists its URI should be removed
 // from the map
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 3d0a13f..1ddc84e 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -229,8 +229,12 @@ func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store,
 				if strings.HasSuffix(doc.URI, ".php") {
 					count++
 					waitGroup.Add(1)
+					uri := store.FS.ConvertToURI(doc.URI)
+					if isStoreFolder {
+						s.retainDocument(store, uri)
+					}
 					s.createJobs <- creatorJob{
-						uri:       store.FS.ConvertToURI(doc.URI),
+						uri:       uri,
 						ctx:       ctx,
 						waitGroup: &waitGroup,
 					}
@@ -250,6 +254,14 @@ func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store,
 	}()
 }
 
+// retainDocument exempts the document from what the store forgets after indexing its folder
+func (s *workspaceStore) retainDocument(store *analysis.Store, uri string) {
+	uri, err := util.DecodeURIFromQuery(uri)
+	if err == nil && s.getStore(uri) == store {
+		store.RetainDocument(uri)
+	}
+}
+
 // getStore returns the store of the innermost folder containing the URI
 func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
 	return s.findStore(func(folder protocol.DocumentURI) bool {
-- 
2.43.0


From de2ecd0f3b3b24ad953e394f659d994611813705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:40 +0000
Subject: [PATCH 34/57] fix: members follow inheritance and visibility, and
 queries end on cyclic hierarchies

---
 analysis/query.go | 482 ++++++++++++++++++++--------------------------
 1 file changed, 204 insertions(+), 278 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index c7288fe..46441f8 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -207,71 +207,161 @@ func (r RelationMap) Merge(other RelationMap) {
 	}
 }
 
-// IsInheritedStatic checks the given conditions if it can be inherited
-func IsInheritedStatic(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) bool {
-	scopeName := access.ScopeName()
-	scopeTypes := access.ScopeTypes()
-	memberScopeFQN := member.ScopeTypeString().GetFQN()
-	visibility := member.Visibility()
-	isStatic := member.IsStatic()
-	if IsNameParent(scopeName) {
-		return memberScopeFQN != currentClass && visibility != Private
+// lineage is the types whose members a type has, the nearest first: the type itself, the
+// traits it uses, the same of its parents, and the interfaces
+type lineage struct {
+	scopes []lineageScope
+	// The classes which use the traits
+	relations RelationMap
+}
+
+type lineageScope struct {
+	fqn    string
+	symbol Symbol
+}
+
+func (l *lineage) add(fqn string, symbol Symbol) bool {
+	if l.has(fqn) {
+		return false
 	}
-	if IsNameRelative(scopeName) {
-		return memberScopeFQN == currentClass || visibility != Private
+	l.scopes = append(l.scopes, lineageScope{fqn, symbol})
+	return true
+}
+
+func (l *lineage) has(fqn string) bool {
+	for _, scope := range l.scopes {
+		if scope.fqn == fqn {
+			return true
+		}
 	}
-	if !isStatic {
-		return false
+	return false
+}
+
+// search returns the scopes which have not been searched yet
+func (l *lineage) search(searchedFQNs map[string]struct{}) []lineageScope {
+	var scopes []lineageScope
+	for _, scope := range l.scopes {
+		if _, ok := searchedFQNs[scope.fqn]; !ok {
+			searchedFQNs[scope.fqn] = struct{}{}
+			scopes = append(scopes, scope)
+		}
 	}
-	if visibility == Public {
-		return true
+	return scopes
+}
+
+// classLineage returns the lineage of the classes with the name
+func (q *Query) classLineage(name string) *lineage {
+	cacheKey := "ClassLineage" + sep + name
+	if data, ok := q.cache[cacheKey]; ok {
+		if l, ok := data.(*lineage); ok {
+			return l
+		}
 	}
-	var (
-		isSameClass bool
-		isRelated   bool
-	)
-	for _, ts := range scopeTypes.Resolve() {
-		fqn := ts.GetFQN()
-		if fqn == memberScopeFQN {
-			isSameClass = true
-			break
+	l := &lineage{relations: RelationMap{}}
+	var interfaces []TypeString
+	visited := map[string]struct{}{}
+	for names := []string{name}; len(names) > 0; names = names[1:] {
+		key := GetClassFQNLowerCase(names[0])
+		if _, ok := visited[key]; ok {
+			continue
+		}
+		visited[key] = struct{}{}
+		classes := q.GetClasses(names[0])
+		for _, class := range classes {
+			l.add(class.Name.GetFQN(), class)
 		}
-		if relationMap.IsRelated(memberScopeFQN, fqn) {
-			isRelated = true
-			break
+		for _, class := range classes {
+			for _, use := range class.Use {
+				if use.IsEmpty() {
+					continue
+				}
+				for _, trait := range q.GetTraits(use.GetFQN()) {
+					l.add(trait.Name.GetFQN(), trait)
+					l.relations.Relate(trait.Name.GetFQN(), class.Name.GetFQN())
+				}
+			}
+			if !class.Extends.IsEmpty() {
+				names = append(names, class.Extends.GetFQN())
+			}
+			interfaces = append(interfaces, class.Interfaces...)
 		}
 	}
-	return isSameClass || (isRelated && visibility == Protected)
+	q.addInterfaces(l, interfaces)
+	q.cache[cacheKey] = l
+	return l
 }
 
-// IsInherited checks whether the given conditions can inherit the symbol with non-static rules
-func IsInherited(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) bool {
-	scopeName := access.ScopeName()
-	scopeTypes := access.ScopeTypes()
-	memberScopeFQN := member.ScopeTypeString().GetFQN()
+// interfaceLineage returns the lineage of the interface
+func (q *Query) interfaceLineage(intf *Interface) *lineage {
+	cacheKey := "InterfaceLineage" + sep + intf.Name.GetFQN()
+	if data, ok := q.cache[cacheKey]; ok {
+		if l, ok := data.(*lineage); ok {
+			return l
+		}
+	}
+	l := &lineage{relations: RelationMap{}}
+	q.addInterfaces(l, []TypeString{intf.Name})
+	q.cache[cacheKey] = l
+	return l
+}
+
+func (q *Query) addInterfaces(l *lineage, names []TypeString) {
+	visited := map[string]struct{}{}
+	for ; len(names) > 0; names = names[1:] {
+		if names[0].IsEmpty() {
+			continue
+		}
+		key := GetClassFQNLowerCase(names[0].GetFQN())
+		if _, ok := visited[key]; ok {
+			continue
+		}
+		visited[key] = struct{}{}
+		for _, intf := range q.GetInterfaces(names[0].GetFQN()) {
+			l.add(intf.Name.GetFQN(), intf)
+			names = append(names, intf.Extends...)
+		}
+	}
+}
+
+func (q *Query) isDerived(class string, from string) bool {
+	return class != "" && q != nil && q.classLineage(class).has(from)
+}
+
+// canAccess checks whether the member can be accessed in the class. The members of a
+// trait are those of the classes which use it
+func (q *Query) canAccess(currentClass string, relationMap RelationMap, member MemberSymbol) bool {
 	visibility := member.Visibility()
-	if scopeName == "$this" && (memberScopeFQN == currentClass || visibility != Private) {
+	if visibility == Public {
 		return true
 	}
-	if visibility == Public {
+	scope := member.ScopeTypeString().GetFQN()
+	if scope == currentClass || relationMap.IsRelated(scope, currentClass) {
 		return true
 	}
-	var (
-		isSameClass bool
-		isRelated   bool
-	)
-	for _, ts := range scopeTypes.Resolve() {
-		fqn := ts.GetFQN()
-		if fqn == currentClass {
-			isSameClass = true
-			break
-		}
-		if relationMap.IsRelated(memberScopeFQN, fqn) {
-			isRelated = true
-			break
+	if visibility == Private {
+		return false
+	}
+	if q.isDerived(currentClass, scope) || q.isDerived(scope, currentClass) {
+		return true
+	}
+	for user := range relationMap[scope] {
+		if q.isDerived(user, currentClass) {
+			return true
 		}
 	}
-	return isSameClass || (isRelated && visibility == Protected)
+	return false
+}
+
+// isInheritedStatic checks whether the member can be accessed by the static rules
+func (q *Query) isInheritedStatic(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) bool {
+	scopeName := access.ScopeName()
+	if IsNameParent(scopeName) {
+		return member.ScopeTypeString().GetFQN() != currentClass && member.Visibility() != Private
+	}
+	if !IsNameRelative(scopeName) && !member.IsStatic() {
+		return false
+	}
+	return q.canAccess(currentClass, relationMap, member)
 }
 
 // InheritedMethods contains the methods and the searched scope names
@@ -279,6 +369,8 @@ type InheritedMethods struct {
 	Methods      []MethodWithScope
 	RelationMap  RelationMap
 	SearchedFQNs map[string]struct{}
+
+	query *Query
 }
 
 // EmptyInheritedMethods returns an empty inherited methods
@@ -306,6 +398,9 @@ func (m *InheritedMethods) Merge(other InheritedMethods) {
 		m.SearchedFQNs[fqn] = struct{}{}
 	}
 	m.RelationMap.Merge(other.RelationMap)
+	if m.query == nil {
+		m.query = other.query
+	}
 }
 
 // ReduceFirst ignores static or non-static rules and returns the first
@@ -331,12 +426,13 @@ func (m InheritedMethods) ReduceStatic(currentClass string, access MemberAccess)
 	var results []MethodWithScope
 	duplicatedNames := make(map[string]struct{})
 	for _, ms := range m.Methods {
-		if _, ok := duplicatedNames[ms.Method.Name]; ok {
+		name := strings.ToLower(ms.Method.Name)
+		if _, ok := duplicatedNames[name]; ok {
 			continue
 		}
-		if IsInheritedStatic(currentClass, access, m.RelationMap, ms.Method) {
+		if m.query.isInheritedStatic(currentClass, access, m.RelationMap, ms.Method) {
 			results = append(results, ms)
-			duplicatedNames[ms.Method.Name] = struct{}{}
+			duplicatedNames[name] = struct{}{}
 		}
 	}
 	return results
@@ -344,23 +440,22 @@ func (m InheritedMethods) ReduceStatic(currentClass string, access MemberAccess)
 
 // ReduceAccess filters the methods by the access rules
 // Rules:
-// - If the `name` is $this includes the scope is the current class or not private methods
-// - If the type of `scope` is the same as the current class, private methods can
-//   be accessed
-// - Else, only public methods can be accessed
+// - Private methods can be accessed in the class which has them
+// - Protected methods can be accessed in the classes it extends and those extending it
 func (m InheritedMethods) ReduceAccess(currentClass string, access MemberAccess) []MethodWithScope {
 	var results []MethodWithScope
 	duplicatedNames := make(map[string]struct{})
 	for _, ms := range m.Methods {
-		if _, ok := duplicatedNames[ms.Method.Name]; ok {
+		name := strings.ToLower(ms.Method.Name)
+		if _, ok := duplicatedNames[name]; ok {
 			continue
 		}
-		if IsInherited(currentClass, access, m.RelationMap, ms.Method) {
+		if m.query.canAccess(currentClass, m.RelationMap, ms.Method) {
 			if ms.Method.isStatic {
 				ms.Score -= staticInAccessCost
 			}
 			results = append(results, ms)
-			duplicatedNames[ms.Method.Name] = struct{}{}
+			duplicatedNames[name] = struct{}{}
 		}
 	}
 	return results
@@ -392,92 +487,24 @@ func (q *Query) GetMethods(scope string, name string) []*Method {
 
 // GetClassMethods returns all methods from the given class, its extends and implements
 func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[string]struct{}) InheritedMethods {
-	classes := []*Class{
-		class,
-	}
-	if searchedFQNs == nil {
-		searchedFQNs = map[string]struct{}{}
-	}
-	cacheKey := "ClassMethods" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
-		if methods, ok := data.(InheritedMethods); ok {
-			return methods
-		}
-	}
-	methods := NewInheritedMethods(nil, searchedFQNs)
-	methodsFromInterfaces := NewInheritedMethods(nil, searchedFQNs)
-	for len(classes) > 0 {
-		var class *Class
-		class, classes = classes[0], classes[1:]
-		scope := class.Name.GetFQN()
-		if _, ok := searchedFQNs[scope]; ok {
-			continue
-		}
-		searchedFQNs[scope] = struct{}{}
-		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(class, q.GetMethods(scope, name))...)
-		for _, use := range class.Use {
-			if use.IsEmpty() {
-				continue
-			}
-			for _, trait := range q.store.GetTraits(use.GetFQN()) {
-				methods.Merge(q.GetTraitMethods(trait, name))
-			}
-		}
-		if !class.Extends.IsEmpty() {
-			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
-				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
-			}
-		}
-		for _, implement := range class.Interfaces {
-			if implement.IsEmpty() {
-				continue
-			}
-			for _, intf := range q.store.GetInterfaces(implement.GetFQN()) {
-				methodsFromInterfaces.Merge(q.GetInterfaceMethods(intf, name, methodsFromInterfaces.SearchedFQNs))
-			}
-		}
-	}
-	methods.Merge(methodsFromInterfaces)
-	q.cache[cacheKey] = methods
-	return methods
+	return q.methodsOf(q.classLineage(class.Name.GetFQN()), name, searchedFQNs)
 }
 
 // GetInterfaceMethods returns all methods from the given interface and its extends
 func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs map[string]struct{}) InheritedMethods {
-	interfaces := []*Interface{
-		intf,
-	}
+	return q.methodsOf(q.interfaceLineage(intf), name, searchedFQNs)
+}
+
+func (q *Query) methodsOf(l *lineage, name string, searchedFQNs map[string]struct{}) InheritedMethods {
 	if searchedFQNs == nil {
-		searchedFQNs = make(map[string]struct{})
-	}
-	cacheKey := "InterfaceMethods" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
-		if methods, ok := data.(InheritedMethods); ok {
-			return methods
-		}
+		searchedFQNs = map[string]struct{}{}
 	}
 	methods := NewInheritedMethods(nil, searchedFQNs)
-	for len(interfaces) > 0 {
-		var intf *Interface
-		intf, interfaces = interfaces[0], interfaces[1:]
-		scope := intf.Name.GetFQN()
-		if _, ok := searchedFQNs[scope]; ok {
-			continue
-		}
-		searchedFQNs[scope] = struct{}{}
-		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(intf, q.GetMethods(scope, name))...)
-		for _, extend := range intf.Extends {
-			if extend.IsEmpty() {
-				continue
-			}
-			for _, intf := range q.store.GetInterfaces(extend.GetFQN()) {
-				if _, ok := searchedFQNs[intf.Name.GetFQN()]; !ok {
-					interfaces = append(interfaces, intf)
-				}
-			}
-		}
+	methods.query = q
+	methods.RelationMap.Merge(l.relations)
+	for _, scope := range l.search(searchedFQNs) {
+		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(scope.symbol, q.GetMethods(scope.fqn, name))...)
 	}
-	q.cache[cacheKey] = methods
 	return methods
 }
 
@@ -492,6 +519,7 @@ func (q *Query) GetTraitMethods(trait *Trait, name string) InheritedMethods {
 	methods := NewInheritedMethods(
 		methodWithScopeFromMethods(trait, q.GetMethods(trait.Name.GetFQN(), name)),
 		make(map[string]struct{}))
+	methods.query = q
 	q.cache[cacheKey] = methods
 	return methods
 }
@@ -503,7 +531,7 @@ func (q *Query) SearchClassMethods(class *Class, keyword string, searchedFQNs ma
 	}
 	methods := q.GetClassMethods(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := []MethodWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -523,7 +551,7 @@ func (q *Query) SearchInterfaceMethods(intf *Interface, keyword string, searched
 	}
 	methods := q.GetInterfaceMethods(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := []MethodWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -576,6 +604,8 @@ type InheritedClassConst struct {
 	Consts       []ClassConstWithScope
 	RelationMap  RelationMap
 	SearchedFQNs map[string]struct{}
+
+	query *Query
 }
 
 // EmptyInheritedClassConst creates an empty inherited class const
@@ -599,6 +629,9 @@ func (c *InheritedClassConst) Merge(other InheritedClassConst) {
 		c.SearchedFQNs[fqn] = struct{}{}
 	}
 	c.RelationMap.Merge(other.RelationMap)
+	if c.query == nil {
+		c.query = other.query
+	}
 }
 
 // ReduceStatic reduces the inherited props using the static rules
@@ -609,7 +642,7 @@ func (c InheritedClassConst) ReduceStatic(currentClass string, access MemberAcce
 		if _, ok := duplicatedNames[cc.Const.Name]; ok {
 			continue
 		}
-		if IsInheritedStatic(currentClass, access, c.RelationMap, cc.Const) {
+		if c.query.isInheritedStatic(currentClass, access, c.RelationMap, cc.Const) {
 			results = append(results, cc)
 			duplicatedNames[cc.Const.Name] = struct{}{}
 		}
@@ -637,83 +670,24 @@ func (q *Query) GetClassConsts(scope string, name string) []*ClassConst {
 
 // GetClassClassConsts returns the inherited class const
 func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[string]struct{}) InheritedClassConst {
-	cacheKey := "ClassClassConst" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
-		if classConsts, ok := data.(InheritedClassConst); ok {
-			return classConsts
-		}
-	}
-	classes := []*Class{
-		class,
-	}
-	if searchedFQNs == nil {
-		searchedFQNs = make(map[string]struct{})
-	}
-	classConsts := NewInheritedClassConst(nil, searchedFQNs)
-	classConstsFromInterfaces := NewInheritedClassConst(nil, searchedFQNs)
-	for len(classes) > 0 {
-		var class *Class
-		class, classes = classes[0], classes[1:]
-		classConsts.Consts = append(classConsts.Consts,
-			classConstWithScopeFromConsts(class, q.GetClassConsts(class.Name.GetFQN(), name))...)
-		if !class.Extends.IsEmpty() {
-			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
-				classConsts.RelationMap.Relate(class.Name.GetFQN(), class.Extends.GetFQN())
-				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
-			}
-		}
-		for _, typeString := range class.Interfaces {
-			if typeString.IsEmpty() {
-				continue
-			}
-			for _, intf := range q.GetInterfaces(typeString.GetFQN()) {
-				classConsts.RelationMap.Relate(class.Name.GetFQN(), intf.Name.GetFQN())
-				classConstsFromInterfaces.Merge(q.GetInterfaceClassConsts(intf, name, classConstsFromInterfaces.SearchedFQNs))
-			}
-		}
-	}
-	classConsts.Merge(classConstsFromInterfaces)
-	q.cache[cacheKey] = classConsts
-	return classConsts
+	return q.classConstsOf(q.classLineage(class.Name.GetFQN()), name, searchedFQNs)
 }
 
 // GetInterfaceClassConsts returns the class consts of the interface
 func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQNs map[string]struct{}) InheritedClassConst {
-	interfaces := []*Interface{
-		intf,
-	}
+	return q.classConstsOf(q.interfaceLineage(intf), name, searchedFQNs)
+}
+
+func (q *Query) classConstsOf(l *lineage, name string, searchedFQNs map[string]struct{}) InheritedClassConst {
 	if searchedFQNs == nil {
-		searchedFQNs = make(map[string]struct{})
-	}
-	cacheKey := "InterfaceClassConst" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
-		if cc, ok := data.(InheritedClassConst); ok {
-			return cc
-		}
+		searchedFQNs = map[string]struct{}{}
 	}
 	classConsts := NewInheritedClassConst(nil, searchedFQNs)
-	for len(interfaces) > 0 {
-		intf, interfaces = interfaces[0], interfaces[1:]
-		scope := intf.Name.GetFQN()
-		if _, ok := searchedFQNs[scope]; ok {
-			continue
-		}
-		searchedFQNs[scope] = struct{}{}
-		classConsts.Consts = append(classConsts.Consts,
-			classConstWithScopeFromConsts(intf, q.GetClassConsts(scope, name))...)
-		for _, extend := range intf.Extends {
-			if extend.IsEmpty() {
-				continue
-			}
-			for _, intf := range q.GetInterfaces(extend.GetFQN()) {
-				classConsts.RelationMap.Relate(scope, intf.Name.GetFQN())
-				if _, ok := searchedFQNs[intf.Name.GetFQN()]; !ok {
-					interfaces = append(interfaces, intf)
-				}
-			}
-		}
+	classConsts.query = q
+	classConsts.RelationMap.Merge(l.relations)
+	for _, scope := range l.search(searchedFQNs) {
+		classConsts.Consts = append(classConsts.Consts, classConstWithScopeFromConsts(scope.symbol, q.GetClassConsts(scope.fqn, name))...)
 	}
-	q.cache[cacheKey] = classConsts
 	return classConsts
 }
 
@@ -724,7 +698,7 @@ func (q *Query) SearchClassClassConsts(class *Class, keyword string, searchedFQN
 	}
 	classConsts := q.GetClassClassConsts(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := []ClassConstWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -744,7 +718,7 @@ func (q *Query) SearchInterfaceClassConsts(intf *Interface, keyword string, sear
 	}
 	classConsts := q.GetInterfaceClassConsts(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := []ClassConstWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -797,6 +771,8 @@ type InheritedProps struct {
 	Props        []PropWithScope
 	RelationMap  RelationMap
 	SearchedFQNs map[string]struct{}
+
+	query *Query
 }
 
 // EmptyInheritedProps creates an empty InheritedProps
@@ -820,6 +796,9 @@ func (p *InheritedProps) Merge(other InheritedProps) {
 		p.SearchedFQNs[fqn] = struct{}{}
 	}
 	p.RelationMap.Merge(other.RelationMap)
+	if p.query == nil {
+		p.query = other.query
+	}
 }
 
 // ReduceStatic reduces properties using the static rules
@@ -830,7 +809,7 @@ func (p InheritedProps) ReduceStatic(currentClass string, access MemberAccess) [
 		if _, ok := duplicatedNames[ps.Prop.Name]; ok {
 			continue
 		}
-		if IsInheritedStatic(currentClass, access, p.RelationMap, ps.Prop) {
+		if p.query.isInheritedStatic(currentClass, access, p.RelationMap, ps.Prop) {
 			results = append(results, ps)
 			duplicatedNames[ps.Prop.Name] = struct{}{}
 		}
@@ -846,7 +825,7 @@ func (p InheritedProps) ReduceAccess(currentClass string, access MemberAccess) [
 		if _, ok := duplicatedNames[ps.Prop.Name]; ok {
 			continue
 		}
-		if IsInherited(currentClass, access, p.RelationMap, ps.Prop) {
+		if p.query.canAccess(currentClass, p.RelationMap, ps.Prop) {
 			if ps.Prop.isStatic {
 				ps.Score -= staticInAccessCost
 			}
@@ -882,77 +861,24 @@ func (q *Query) GetProps(scope, name string) []*Property {
 
 // GetClassProps gets all properties for a class
 func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string]struct{}) InheritedProps {
-	classes := []*Class{
-		class,
-	}
-	if searchedFQNs == nil {
-		searchedFQNs = map[string]struct{}{}
-	}
-	cacheKey := "ClassProps" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
-		if p, ok := data.(InheritedProps); ok {
-			return p
-		}
-	}
-	props := NewInheritedProps(nil, searchedFQNs)
-	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
-	for len(classes) > 0 {
-		class, classes = classes[0], classes[1:]
-		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(class.Name.GetFQN(), name))...)
-		if !class.Extends.IsEmpty() {
-			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
-				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
-			}
-		}
-		for _, typeString := range class.Interfaces {
-			if typeString.IsEmpty() {
-				continue
-			}
-			for _, intf := range q.GetInterfaces(typeString.GetFQN()) {
-				propsFromInterfaces.Merge(q.GetInterfaceProps(intf, name, propsFromInterfaces.SearchedFQNs))
-			}
-		}
-	}
-	props.Merge(propsFromInterfaces)
-	q.cache[cacheKey] = props
-	return props
+	return q.propsOf(q.classLineage(class.Name.GetFQN()), name, searchedFQNs)
 }
 
 // GetInterfaceProps gets all properties for an interface
 func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map[string]struct{}) InheritedProps {
-	interfaces := []*Interface{
-		intf,
-	}
+	return q.propsOf(q.interfaceLineage(intf), name, searchedFQNs)
+}
+
+func (q *Query) propsOf(l *lineage, name string, searchedFQNs map[string]struct{}) InheritedProps {
 	if searchedFQNs == nil {
-		searchedFQNs = make(map[string]struct{})
-	}
-	cacheKey := "InterfaceProps" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
-		if p, ok := data.(InheritedProps); ok {
-			return p
-		}
+		searchedFQNs = map[string]struct{}{}
 	}
 	props := NewInheritedProps(nil, searchedFQNs)
-	for len(interfaces) > 0 {
-		intf, interfaces = interfaces[0], interfaces[1:]
-		scope := intf.Name.GetFQN()
-		if _, ok := searchedFQNs[scope]; ok {
-			continue
-		}
-		searchedFQNs[scope] = struct{}{}
-		props.Props = append(props.Props, propWithScopeFromProps(intf, q.GetProps(scope, name))...)
-		for _, extend := range intf.Extends {
-			if extend.IsEmpty() {
-				continue
-			}
-			for _, intf := range q.GetInterfaces(extend.GetFQN()) {
-				if _, ok := searchedFQNs[intf.Name.GetFQN()]; !ok {
-					interfaces = append(interfaces, intf)
-				}
-			}
-		}
+	props.query = q
+	props.RelationMap.Merge(l.relations)
+	for _, scope := range l.search(searchedFQNs) {
+		props.Props = append(props.Props, propWithScopeFromProps(scope.symbol, q.GetProps(scope.fqn, name))...)
 	}
-	q.cache[cacheKey] = props
 	return props
 }
 
@@ -963,7 +889,7 @@ func (q *Query) SearchClassProps(class *Class, keyword string, searchedFQNs map[
 	}
 	props := q.GetClassProps(class, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := []PropWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
@@ -983,7 +909,7 @@ func (q *Query) SearchInterfaceProps(intf *Interface, keyword string, searchedFQ
 	}
 	props := q.GetInterfaceProps(intf, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := []PropWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
-- 
2.43.0


From 8a9b37c941b2bcc0361ed4784f3d38d6472d1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:48 +0000
Subject: [PATCH 35/57] fix: shutting down while a folder is being indexed does
 not forget its documents

---
 internal/lsp/workspaceStore.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 1ddc84e..1e8bb43 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -96,13 +96,17 @@ func (s *workspaceStore) newDeletor(id int) {
 }
 
 func (s *workspaceStore) close() {
-	s.mu.Lock()
+	s.mu.RLock()
 	stores := s.stores
-	s.stores = nil
-	s.mu.Unlock()
+	s.mu.RUnlock()
+	// They are in charge of their documents until they are closed, otherwise the
+	// documents being indexed would be forgotten
 	for _, store := range stores {
 		store.Close()
 	}
+	s.mu.Lock()
+	s.stores = nil
+	s.mu.Unlock()
 }
 
 func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
-- 
2.43.0


From 98986294e5ac7e1ffaac89c405d6a172fc332054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 36/57] fix: a trait's members are accessible where its users'
 are

---
 analysis/query.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index 46441f8..23359d8 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -335,17 +335,18 @@ func (q *Query) canAccess(currentClass string, relationMap RelationMap, member M
 		return true
 	}
 	scope := member.ScopeTypeString().GetFQN()
-	if scope == currentClass || relationMap.IsRelated(scope, currentClass) {
+	if scope == currentClass {
 		return true
 	}
-	if visibility == Private {
-		return false
-	}
-	if q.isDerived(currentClass, scope) || q.isDerived(scope, currentClass) {
-		return true
+	owners := relationMap[scope]
+	if len(owners) == 0 {
+		owners = Relations{scope: {}}
 	}
-	for user := range relationMap[scope] {
-		if q.isDerived(user, currentClass) {
+	for owner := range owners {
+		if owner == currentClass {
+			return true
+		}
+		if visibility == Protected && (q.isDerived(currentClass, owner) || q.isDerived(owner, currentClass)) {
 			return true
 		}
 	}
-- 
2.43.0


From 96ab9599c2982a83e47d4cd6999bdcc5c486bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 37/57] fix: static members are completed on instances, and
 found through interfaces

---
 internal/lsp/completion.go | 6 +++++-
 internal/lsp/definition.go | 3 +++
 internal/lsp/hover.go      | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index b17318f..064728f 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -90,7 +90,8 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	switch parent.Type {
 	case phrase.SimpleVariable, phrase.EncapsulatedVariableList:
 		if nodes.Parent().Type == phrase.ScopedMemberName {
-			if s, ok := symbol.(*analysis.ScopedPropertyAccess); ok {
+			if s, ok := symbol.(*analysis.ScopedPropertyAccess); ok && s.Scope != nil {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
 			break
@@ -116,18 +117,21 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	case phrase.ErrorScopedAccessExpression, phrase.ClassConstantAccessExpression:
 		if s, ok := symbol.(*analysis.ScopedConstantAccess); ok {
 			if s.Scope != nil {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
 		}
 	case phrase.ScopedCallExpression:
 		if s, ok := symbol.(*analysis.ScopedMethodAccess); ok {
 			if s.Scope != nil {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
 		}
 	case phrase.ScopedPropertyAccessExpression:
 		if s, ok := symbol.(*analysis.ScopedPropertyAccess); ok {
 			if s.Scope != nil {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
 		}
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index 85f499c..f2a90af 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -92,6 +92,9 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 			for _, class := range q.GetClasses(scopeType.GetFQN()) {
 				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
 			}
+			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
+			}
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, v))
 		}
 		for _, m := range methods {
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index c29be26..a0338b8 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -128,6 +128,9 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 			for _, class := range q.GetClasses(scopeType.GetFQN()) {
 				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
 			}
+			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
+			}
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, v))
 		}
 		if len(methods) > 0 {
-- 
2.43.0


From a420342461127cd2eb4815e074bfe50d70e08717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:54 +0000
Subject: [PATCH 38/57] fix: the members of a trait are found and completed in
 it; member completion in an anonymous class

---
 analysis/memberAccess.go         |  5 ++
 analysis/methodAccess.go         | 20 ++------
 analysis/propertyAccess.go       |  6 +--
 analysis/query.go                | 85 +++++++++++++++++++++-----------
 analysis/scopedMethodAccess.go   | 22 ++-------
 analysis/scopedPropertyAccess.go |  6 +--
 internal/lsp/completion.go       | 15 ++++++
 internal/lsp/definition.go       | 29 ++---------
 internal/lsp/hover.go            | 29 ++---------
 9 files changed, 96 insertions(+), 121 deletions(-)

diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 935f5a4..beea18e 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -22,6 +22,11 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 	memberName := traverser.Advance()
 	name := ""
 	if p, ok := memberName.(*phrase.Phrase); ok && p.Type == phrase.MemberName {
+		if len(p.Children) == 1 {
+			if _, isMissing := p.Children[0].(*phrase.ParseError); isMissing {
+				return name, location
+			}
+		}
 		location = document.GetNodeLocation(p)
 		for _, child := range p.Children {
 			if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Name {
diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index f093da5..e34b1ab 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -55,15 +55,8 @@ func (s *MethodAccess) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	currentClass := ctx.document.GetClassScopeAtSymbol(s.Scope)
 	for _, scopeType := range s.ResolveAndGetScope(ctx).Resolve() {
-		for _, class := range q.GetClasses(scopeType.GetFQN()) {
-			for _, m := range q.GetClassMethods(class, s.Name, nil).ReduceAccess(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
-			}
-		}
-		for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
-			for _, m := range q.GetInterfaceMethods(theInterface, s.Name, nil).ReduceAccess(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
-			}
+		for _, m := range q.GetTypeMethods(scopeType.GetFQN(), s.Name).ReduceAccess(currentClass, s) {
+			s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
 		}
 	}
 	s.hasResolved = true
@@ -79,14 +72,7 @@ func (s *MethodAccess) ResolveToHasParams(ctx ResolveContext) []HasParams {
 	currentClass := ctx.document.GetClassScopeAtSymbol(s.Scope)
 	types := s.ResolveAndGetScope(ctx)
 	for _, typeString := range types.Resolve() {
-		methods := []MethodWithScope{}
-		for _, class := range q.GetClasses(typeString.GetFQN()) {
-			methods = append(methods, q.GetClassMethods(class, s.Name, nil).ReduceAccess(currentClass, s)...)
-		}
-		for _, intf := range q.GetInterfaces(typeString.GetFQN()) {
-			methods = append(methods, q.GetInterfaceMethods(intf, s.Name, nil).ReduceAccess(currentClass, s)...)
-		}
-		for _, m := range methods {
+		for _, m := range q.GetTypeMethods(typeString.GetFQN(), s.Name).ReduceAccess(currentClass, s) {
 			hasParams = append(hasParams, m.Method)
 		}
 	}
diff --git a/analysis/propertyAccess.go b/analysis/propertyAccess.go
index 05fc09b..1bfd8ea 100644
--- a/analysis/propertyAccess.go
+++ b/analysis/propertyAccess.go
@@ -45,10 +45,8 @@ func (s *PropertyAccess) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	currentClass := ctx.document.GetClassScopeAtSymbol(s.Scope)
 	for _, scopeType := range s.ResolveAndGetScope(ctx).Resolve() {
-		for _, class := range q.GetClasses(scopeType.GetFQN()) {
-			for _, p := range q.GetClassProps(class, "$"+s.Name, nil).ReduceAccess(currentClass, s) {
-				s.Type.merge(p.Prop.Types)
-			}
+		for _, p := range q.GetTypeProps(scopeType.GetFQN(), "$"+s.Name).ReduceAccess(currentClass, s) {
+			s.Type.merge(p.Prop.Types)
 		}
 	}
 	s.hasResolved = true
diff --git a/analysis/query.go b/analysis/query.go
index 23359d8..bd0a97a 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -509,6 +509,21 @@ func (q *Query) methodsOf(l *lineage, name string, searchedFQNs map[string]struc
 	return methods
 }
 
+// GetTypeMethods returns the methods of the classes, interfaces and traits with the FQN
+func (q *Query) GetTypeMethods(fqn string, name string) InheritedMethods {
+	methods := EmptyInheritedMethods()
+	for _, class := range q.GetClasses(fqn) {
+		methods.Merge(q.GetClassMethods(class, name, methods.SearchedFQNs))
+	}
+	for _, intf := range q.GetInterfaces(fqn) {
+		methods.Merge(q.GetInterfaceMethods(intf, name, methods.SearchedFQNs))
+	}
+	for _, trait := range q.GetTraits(fqn) {
+		methods.Merge(q.GetTraitMethods(trait, name))
+	}
+	return methods
+}
+
 // GetTraitMethods returns all methods from the given trait and name
 func (q *Query) GetTraitMethods(trait *Trait, name string) InheritedMethods {
 	cacheKey := "TraitMethods" + sep + trait.Name.GetFQN() + "::" + name
@@ -530,19 +545,7 @@ func (q *Query) SearchClassMethods(class *Class, keyword string, searchedFQNs ma
 	if searchedFQNs == nil {
 		searchedFQNs = map[string]struct{}{}
 	}
-	methods := q.GetClassMethods(class, "", searchedFQNs)
-	if keyword != "" {
-		newMethods := []MethodWithScope{}
-		patternRune := []rune(strings.ToLower(keyword))
-		for _, method := range methods.Methods {
-			if matched, score := isMatch(method.Method.Name, patternRune); matched {
-				method.Score = score
-				newMethods = append(newMethods, method)
-			}
-		}
-		methods.Methods = newMethods
-	}
-	return methods
+	return searchMethods(q.GetClassMethods(class, "", searchedFQNs), keyword)
 }
 
 // SearchInterfaceMethods searches methods using fuzzy
@@ -550,7 +553,15 @@ func (q *Query) SearchInterfaceMethods(intf *Interface, keyword string, searched
 	if searchedFQNs == nil {
 		searchedFQNs = map[string]struct{}{}
 	}
-	methods := q.GetInterfaceMethods(intf, "", searchedFQNs)
+	return searchMethods(q.GetInterfaceMethods(intf, "", searchedFQNs), keyword)
+}
+
+// SearchTraitMethods searches methods using fuzzy
+func (q *Query) SearchTraitMethods(trait *Trait, keyword string) InheritedMethods {
+	return searchMethods(q.GetTraitMethods(trait, ""), keyword)
+}
+
+func searchMethods(methods InheritedMethods, keyword string) InheritedMethods {
 	if keyword != "" {
 		newMethods := []MethodWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
@@ -865,6 +876,28 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 	return q.propsOf(q.classLineage(class.Name.GetFQN()), name, searchedFQNs)
 }
 
+// GetTraitProps gets all properties for a trait
+func (q *Query) GetTraitProps(trait *Trait, name string, searchedFQNs map[string]struct{}) InheritedProps {
+	l := &lineage{relations: RelationMap{}}
+	l.add(trait.Name.GetFQN(), trait)
+	return q.propsOf(l, name, searchedFQNs)
+}
+
+// GetTypeProps gets all properties of the classes, interfaces and traits with the FQN
+func (q *Query) GetTypeProps(fqn string, name string) InheritedProps {
+	props := EmptyInheritedProps()
+	for _, class := range q.GetClasses(fqn) {
+		props.Merge(q.GetClassProps(class, name, props.SearchedFQNs))
+	}
+	for _, intf := range q.GetInterfaces(fqn) {
+		props.Merge(q.GetInterfaceProps(intf, name, props.SearchedFQNs))
+	}
+	for _, trait := range q.GetTraits(fqn) {
+		props.Merge(q.GetTraitProps(trait, name, props.SearchedFQNs))
+	}
+	return props
+}
+
 // GetInterfaceProps gets all properties for an interface
 func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map[string]struct{}) InheritedProps {
 	return q.propsOf(q.interfaceLineage(intf), name, searchedFQNs)
@@ -888,19 +921,7 @@ func (q *Query) SearchClassProps(class *Class, keyword string, searchedFQNs map[
 	if searchedFQNs == nil {
 		searchedFQNs = map[string]struct{}{}
 	}
-	props := q.GetClassProps(class, "", searchedFQNs)
-	if keyword != "" {
-		newProps := []PropWithScope{}
-		patternRune := []rune(strings.ToLower(keyword))
-		for _, prop := range props.Props {
-			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
-				prop.Score = score
-				newProps = append(newProps, prop)
-			}
-		}
-		props.Props = newProps
-	}
-	return props
+	return searchProps(q.GetClassProps(class, "", searchedFQNs), keyword)
 }
 
 // SearchInterfaceProps searches for class props using fuzzy match
@@ -908,7 +929,15 @@ func (q *Query) SearchInterfaceProps(intf *Interface, keyword string, searchedFQ
 	if searchedFQNs == nil {
 		searchedFQNs = map[string]struct{}{}
 	}
-	props := q.GetInterfaceProps(intf, "", searchedFQNs)
+	return searchProps(q.GetInterfaceProps(intf, "", searchedFQNs), keyword)
+}
+
+// SearchTraitProps searches for trait props using fuzzy match
+func (q *Query) SearchTraitProps(trait *Trait, keyword string, searchedFQNs map[string]struct{}) InheritedProps {
+	return searchProps(q.GetTraitProps(trait, "", searchedFQNs), keyword)
+}
+
+func searchProps(props InheritedProps, keyword string) InheritedProps {
 	if keyword != "" {
 		newProps := []PropWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index f2c77c9..4c06c04 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -59,15 +59,8 @@ func (s *ScopedMethodAccess) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	currentClass := ctx.document.GetClassScopeAtSymbol(s.Scope)
 	for _, scopeType := range s.ResolveAndGetScope(ctx).Resolve() {
-		for _, class := range q.GetClasses(scopeType.GetFQN()) {
-			for _, m := range q.GetClassMethods(class, s.Name, nil).ReduceStatic(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
-			}
-		}
-		for _, intf := range q.GetInterfaces(scopeType.GetFQN()) {
-			for _, m := range q.GetInterfaceMethods(intf, s.Name, nil).ReduceStatic(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
-			}
+		for _, m := range q.GetTypeMethods(scopeType.GetFQN(), s.Name).ReduceStatic(currentClass, s) {
+			s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
 		}
 	}
 }
@@ -81,15 +74,8 @@ func (s *ScopedMethodAccess) ResolveToHasParams(ctx ResolveContext) []HasParams
 	q := ctx.query
 	currentClass := ctx.document.GetClassScopeAtSymbol(s.Scope)
 	for _, scopeType := range s.ResolveAndGetScope(ctx).Resolve() {
-		for _, class := range q.GetClasses(scopeType.GetFQN()) {
-			for _, m := range q.GetClassMethods(class, s.Name, nil).ReduceStatic(currentClass, s) {
-				hasParams = append(hasParams, m.Method)
-			}
-		}
-		for _, intf := range q.GetInterfaces(scopeType.GetFQN()) {
-			for _, m := range q.GetInterfaceMethods(intf, s.Name, nil).ReduceStatic(currentClass, s) {
-				hasParams = append(hasParams, m.Method)
-			}
+		for _, m := range q.GetTypeMethods(scopeType.GetFQN(), s.Name).ReduceStatic(currentClass, s) {
+			hasParams = append(hasParams, m.Method)
 		}
 	}
 	return hasParams
diff --git a/analysis/scopedPropertyAccess.go b/analysis/scopedPropertyAccess.go
index fa4ac7e..210e61c 100644
--- a/analysis/scopedPropertyAccess.go
+++ b/analysis/scopedPropertyAccess.go
@@ -51,10 +51,8 @@ func (s *ScopedPropertyAccess) Resolve(ctx ResolveContext) {
 	s.hasResolved = true
 	currentClass := ctx.document.GetClassScopeAtSymbol(s.Scope)
 	for _, scopeType := range s.ResolveAndGetScope(ctx).Resolve() {
-		for _, class := range q.GetClasses(scopeType.GetFQN()) {
-			for _, p := range q.GetClassProps(class, s.Name, nil).ReduceStatic(currentClass, s) {
-				s.Type.merge(p.Prop.Types)
-			}
+		for _, p := range q.GetTypeProps(scopeType.GetFQN(), s.Name).ReduceStatic(currentClass, s) {
+			s.Type.merge(p.Prop.Types)
 		}
 	}
 }
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 064728f..6dc4d00 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -147,6 +147,11 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 			}
 		}
 	case phrase.PropertyAccessExpression:
+		if s, ok := symbol.(*analysis.PropertyAccess); ok && s.Scope != nil {
+			s.Scope.Resolve(resolveCtx)
+			completionList = memberAccessCompletion(completionCtx, word, s)
+			break
+		}
 		s := document.HasTypesBeforePos(params.Position)
 		if s != nil {
 			s.Resolve(resolveCtx)
@@ -373,6 +378,12 @@ func scopedAccessCompletion(ctx *completionContext, word string, access analysis
 				ccs.Merge(ctx.query.SearchInterfaceClassConsts(intf, word, ccs.SearchedFQNs))
 			}
 		}
+		for _, trait := range ctx.query.GetTraits(scopeTypeFQN) {
+			ps.Merge(ctx.query.SearchTraitProps(trait, word, ps.SearchedFQNs))
+			if ctx.token.Type != lexer.VariableName && ctx.token.Type != lexer.Dollar {
+				ms.Merge(ctx.query.SearchTraitMethods(trait, word))
+			}
+		}
 		methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, access))
 		props = analysis.MergePropWithScope(props, ps.ReduceStatic(currentClass, access))
 		classConsts = analysis.MergeClassConstWithScope(classConsts, ccs.ReduceStatic(currentClass, access))
@@ -417,6 +428,10 @@ func memberAccessCompletion(ctx *completionContext, word string, access analysis
 			ms.Merge(ctx.query.SearchInterfaceMethods(intf, word, ms.SearchedFQNs))
 			ps.Merge(ctx.query.SearchInterfaceProps(intf, word, ps.SearchedFQNs))
 		}
+		for _, trait := range ctx.query.GetTraits(scopeTypeFQN) {
+			ms.Merge(ctx.query.SearchTraitMethods(trait, word))
+			ps.Merge(ctx.query.SearchTraitProps(trait, word, ps.SearchedFQNs))
+		}
 		methods = analysis.MergeMethodWithScope(methods, ms.ReduceAccess(currentClass, access))
 		props = analysis.MergePropWithScope(props, ps.ReduceAccess(currentClass, access))
 	}
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index f2a90af..b30f609 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -88,13 +88,7 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 		currentClass := document.GetClassScopeAtSymbol(v)
 		var methods []analysis.MethodWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ms := analysis.EmptyInheritedMethods()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
-			}
-			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
-				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
-			}
+			ms := q.GetTypeMethods(scopeType.GetFQN(), v.Name)
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, v))
 		}
 		for _, m := range methods {
@@ -104,10 +98,7 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 		currentClass := document.GetClassScopeAtSymbol(v.Scope)
 		var props []analysis.PropWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ps := analysis.EmptyInheritedProps()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ps.Merge(q.GetClassProps(class, v.Name, ps.SearchedFQNs))
-			}
+			ps := q.GetTypeProps(scopeType.GetFQN(), v.Name)
 			props = analysis.MergePropWithScope(props, ps.ReduceStatic(currentClass, v))
 		}
 		for _, p := range props {
@@ -117,10 +108,7 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 		currentClass := document.GetClassScopeAtSymbol(v.Scope)
 		var props []analysis.PropWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ps := analysis.EmptyInheritedProps()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ps.Merge(q.GetClassProps(class, "$"+v.Name, ps.SearchedFQNs))
-			}
+			ps := q.GetTypeProps(scopeType.GetFQN(), "$"+v.Name)
 			props = analysis.MergePropWithScope(props, ps.ReduceAccess(currentClass, v))
 		}
 		for _, p := range props {
@@ -130,16 +118,7 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 		currentClass := document.GetClassScopeAtSymbol(v.Scope)
 		var methods []analysis.MethodWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ms := analysis.EmptyInheritedMethods()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
-			}
-			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
-				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
-			}
-			for _, trait := range q.GetTraits(scopeType.GetFQN()) {
-				ms.Merge(q.GetTraitMethods(trait, v.Name))
-			}
+			ms := q.GetTypeMethods(scopeType.GetFQN(), v.Name)
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceAccess(currentClass, v))
 		}
 		for _, m := range methods {
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index a0338b8..37a4bc7 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -124,13 +124,7 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 		currentClass := document.GetClassScopeAtSymbol(v)
 		var methods []analysis.MethodWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ms := analysis.EmptyInheritedMethods()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
-			}
-			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
-				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
-			}
+			ms := q.GetTypeMethods(scopeType.GetFQN(), v.Name)
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, v))
 		}
 		if len(methods) > 0 {
@@ -140,10 +134,7 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 		currentClass := document.GetClassScopeAtSymbol(v.Scope)
 		var props []analysis.PropWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ps := analysis.EmptyInheritedProps()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ps.Merge(q.GetClassProps(class, v.Name, ps.SearchedFQNs))
-			}
+			ps := q.GetTypeProps(scopeType.GetFQN(), v.Name)
 			props = analysis.MergePropWithScope(props, ps.ReduceStatic(currentClass, v))
 		}
 		if len(props) > 0 {
@@ -156,10 +147,7 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 		currentClass := document.GetClassScopeAtSymbol(v.Scope)
 		var props []analysis.PropWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ps := analysis.EmptyInheritedProps()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ps.Merge(q.GetClassProps(class, "$"+v.Name, ps.SearchedFQNs))
-			}
+			ps := q.GetTypeProps(scopeType.GetFQN(), "$"+v.Name)
 			props = analysis.MergePropWithScope(props, ps.ReduceAccess(currentClass, v))
 		}
 		if len(props) > 0 {
@@ -169,16 +157,7 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 		currentClass := document.GetClassScopeAtSymbol(v.Scope)
 		var methods []analysis.MethodWithScope
 		for _, scopeType := range v.ResolveAndGetScope(resolveCtx).Resolve() {
-			ms := analysis.EmptyInheritedMethods()
-			for _, class := range q.GetClasses(scopeType.GetFQN()) {
-				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
-			}
-			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
-				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
-			}
-			for _, trait := range q.GetTraits(scopeType.GetFQN()) {
-				ms.Merge(q.GetTraitMethods(trait, v.Name))
-			}
+			ms := q.GetTypeMethods(scopeType.GetFQN(), v.Name)
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceAccess(currentClass, v))
 		}
 		if len(methods) > 0 {
-- 
2.43.0


From 281c20744b5a43d686028deb606f23bef4426565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:10 +0000
Subject: [PATCH 39/57] fix: documents on which the parser fails or never ends
 are parsed

---
 analysis/document.go |   3 +-
 analysis/parse.go    | 172 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 173 insertions(+), 2 deletions(-)
 create mode 100644 analysis/parse.go

diff --git a/analysis/document.go b/analysis/document.go
index 08660af..8afc588 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -11,7 +11,6 @@ import (
 	"unicode/utf8"
 
 	"github.com/john-nguyen09/go-phpparser/lexer"
-	"github.com/john-nguyen09/go-phpparser/parser"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -85,7 +84,7 @@ func (s *Document) IsOpen() bool {
 func (s *Document) GetRootNode() *phrase.Phrase {
 	if s.rootNode == nil {
 		defer util.TimeTrack(time.Now(), "GetRootNode")
-		s.rootNode = parser.Parse(s.GetText())
+		s.rootNode = parse(s.GetText())
 	}
 	return s.rootNode
 }
diff --git a/analysis/parse.go b/analysis/parse.go
new file mode 100644
index 0000000..7ad4f1a
--- /dev/null
+++ b/analysis/parse.go
@@ -0,0 +1,172 @@
+package analysis
+
+import (
+	"bytes"
+	"log"
+	"regexp"
+
+	"github.com/john-nguyen09/go-phpparser/lexer"
+	"github.com/john-nguyen09/go-phpparser/parser"
+	"github.com/john-nguyen09/go-phpparser/phrase"
+)
+
+var /* const */ tagAtEndRegex = regexp.MustCompile(`@[^ \t\r\n]*$`)
+
+// parse parses the text. There are texts on which the parser fails or never ends, documents
+// which are being typed are among them, so it is given a text which it can parse and whose
+// tokens are at the same offsets
+func parse(text []byte) *phrase.Phrase {
+	readable := blankControls(text)
+	room := 0
+	if tagAtEndRegex.Match(readable) {
+		// The lexer looks for white space after the tag of a doc comment
+		room = 1
+	}
+	rootNode := tryParse(readable, room)
+	if rootNode == nil {
+		// The lexer looks for the end of a heredoc past the end of the text
+		rootNode = tryParse(readable, len(text)+8)
+	}
+	if rootNode == nil {
+		rootNode = &phrase.Phrase{Type: phrase.StatementList}
+	}
+	return rootNode
+}
+
+// tryParse parses the text with some room after it
+func tryParse(text []byte, room int) (rootNode *phrase.Phrase) {
+	defer func() {
+		if err := recover(); err != nil {
+			log.Printf("parser error: %v", err)
+			rootNode = nil
+		}
+	}()
+	roomy := text
+	if room > 0 {
+		roomy = append(append([]byte{}, text...), bytes.Repeat([]byte{'\n'}, room)...)
+	}
+	if tokens := unreadable(roomy); len(tokens) > 0 {
+		roomy = append([]byte{}, roomy...)
+		for _, t := range tokens {
+			for i := t.Offset; i < t.Offset+t.Length; i++ {
+				roomy[i] = ' '
+			}
+		}
+	}
+	rootNode = parser.Parse(roomy)
+	if room > 0 {
+		cutTokens(rootNode, len(text))
+	}
+	return rootNode
+}
+
+// blankControls replaces control characters by spaces, the lexer does not end on some of those
+// which are in a doc comment
+func blankControls(text []byte) []byte {
+	isControl := func(c byte) bool {
+		return c < ' ' && c != '\t' && c != '\r' && c != '\n' || c == 0x7f
+	}
+	for _, c := range text {
+		if isControl(c) {
+			blanked := append([]byte{}, text...)
+			for i, c := range blanked {
+				if isControl(c) {
+					blanked[i] = ' '
+				}
+			}
+			return blanked
+		}
+	}
+	return text
+}
+
+// unreadable finds the tokens on which the parser does not end: the separators of the second
+// and later clauses of use declarations which have no name after them, the author tags without
+// a line end, and the default values in method tags which are not followed by another parameter
+// or a parenthesis
+func unreadable(text []byte) []*lexer.Token {
+	var found, author, values []*lexer.Token
+	inComment, inUse, inFirst := false, false, false
+	var previous, separator *lexer.Token
+	l := lexer.NewLexer(text, nil, 0)
+	for {
+		t := l.Lex()
+		if len(author) > 0 {
+			author = append(author, t)
+		}
+		if t.Type >= lexer.Comment {
+			continue
+		}
+		if separator != nil && t.Type != lexer.Name {
+			found = append(found, separator)
+		}
+		separator = nil
+		switch t.Type {
+		case lexer.Use:
+			inUse, inFirst = true, !inUse || previous.Type == lexer.Name
+		case lexer.Semicolon:
+			// The parser skips one which is where a name should be
+			inUse = inUse && previous.Type != lexer.Name
+		case lexer.OpenBrace:
+			inUse = inUse && previous.Type != lexer.CloseParenthesis
+			inFirst = false
+		case lexer.Function, lexer.Const:
+			inFirst = inFirst && previous.Type == lexer.Use
+		case lexer.Backslash:
+			if inUse && !inFirst {
+				separator = t
+			}
+		case lexer.Name:
+			inFirst = inFirst && (previous.Type == lexer.Use || previous.Type == lexer.Function ||
+				previous.Type == lexer.Const || previous.Type == lexer.Backslash)
+		case lexer.AtAuthor:
+			author = append(author, t)
+		case lexer.DocumentCommentStart:
+			inComment = true
+		case lexer.Equals:
+			inFirst = false
+			if inComment {
+				values = append(values, t)
+			}
+		case lexer.CloseParenthesis, lexer.Comma:
+			inFirst = false
+			values = nil
+		case lexer.DocumentCommentEndline:
+			author = nil
+		case lexer.DocumentCommentEnd, lexer.EndOfFile:
+			if len(author) > 0 {
+				found = append(found, author[:len(author)-1]...)
+			}
+			found = append(found, values...)
+			inComment, author, values = false, nil, nil
+		default:
+			inFirst = false
+		}
+		if t.Type == lexer.EndOfFile {
+			return found
+		}
+		previous = t
+	}
+}
+
+// cutTokens cuts the tokens which go past the end of the text
+func cutTokens(node phrase.AstNode, end int) {
+	switch n := node.(type) {
+	case *lexer.Token:
+		if n.Offset > end {
+			n.Offset = end
+		}
+		if n.Offset+n.Length > end {
+			n.Length = end - n.Offset
+		}
+	case *phrase.ParseError:
+		if n.Unexpected != nil {
+			cutTokens(n.Unexpected, end)
+		}
+		cutTokens(&n.Phrase, end)
+	case *phrase.Phrase:
+		for _, child := range n.Children {
+			cutTokens(child, end)
+		}
+	}
+}
-- 
2.43.0


From 291827aff730d2f43d74f98ac79863a276893cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:10 +0000
Subject: [PATCH 40/57] fix: a function whose header ends with an empty node
 does not crash the server

---
 analysis/function.go |  3 +--
 analysis/method.go   |  3 +--
 util/parser.go       | 16 ++++++++++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/analysis/function.go b/analysis/function.go
index 787efb0..10ec480 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -46,8 +46,7 @@ func newFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
 					function.applyPhpDoc(document, *phpDoc)
 				}
 				for _, param := range function.Params {
-					lastToken := util.LastToken(p)
-					variableTable.add(a, param.ToVariable(), document.positionAt(lastToken.Offset+lastToken.Length), true)
+					variableTable.add(a, param.ToVariable(), document.NodeRange(p).End, true)
 				}
 			case phrase.FunctionDeclarationBody:
 				scanForChildren(a, document, p)
diff --git a/analysis/method.go b/analysis/method.go
index c1b199b..38bb20d 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -77,8 +77,7 @@ func (s *Method) analyseMethodNode(a analyser, document *Document, node *phrase.
 					s.applyPhpDoc(document, *phpDoc)
 				}
 				for _, param := range s.Params {
-					lastToken := util.LastToken(p)
-					variableTable.add(a, param.ToVariable(), document.positionAt(lastToken.Offset+lastToken.Length), true)
+					variableTable.add(a, param.ToVariable(), document.NodeRange(p).End, true)
 				}
 			case phrase.MethodDeclarationBody:
 				scanForChildren(a, document, p)
diff --git a/util/parser.go b/util/parser.go
index 3e0afe1..16a9488 100644
--- a/util/parser.go
+++ b/util/parser.go
@@ -13,8 +13,12 @@ func FirstToken(node phrase.AstNode) *lexer.Token {
 	if e, ok := node.(*phrase.ParseError); ok {
 		return e.Unexpected
 	}
-	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return FirstToken(p.Children[0])
+	if p, ok := node.(*phrase.Phrase); ok {
+		for _, child := range p.Children {
+			if t := FirstToken(child); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
@@ -27,8 +31,12 @@ func LastToken(node phrase.AstNode) *lexer.Token {
 	if e, ok := node.(*phrase.ParseError); ok {
 		return e.Unexpected
 	}
-	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return LastToken(p.Children[len(p.Children)-1])
+	if p, ok := node.(*phrase.Phrase); ok {
+		for i := len(p.Children) - 1; i >= 0; i-- {
+			if t := LastToken(p.Children[i]); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From cccb56c81526b35b3fb76e1320729236afbb446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 41/57] fix: an author tag in the parameters of a method tag
 does not hang the parser

---
 analysis/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analysis/parse.go b/analysis/parse.go
index 7ad4f1a..a13cd07 100644
--- a/analysis/parse.go
+++ b/analysis/parse.go
@@ -130,7 +130,9 @@ func unreadable(text []byte) []*lexer.Token {
 			}
 		case lexer.CloseParenthesis, lexer.Comma:
 			inFirst = false
-			values = nil
+			if len(author) == 0 {
+				values = nil
+			}
 		case lexer.DocumentCommentEndline:
 			author = nil
 		case lexer.DocumentCommentEnd, lexer.EndOfFile:
-- 
2.43.0


From 89f41044edffa8b3d94ff1991da12b1d6ffea3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:06 +0000
Subject: [PATCH 42/57] fix: variables which are caught, static, destructured
 or keys are tracked, and a value read in the next iteration or elsewhere is
 not unused

---
 analysis/anonymousFunction.go |  59 ++++++++++++++++--
 analysis/assignment.go        |  85 +++++++++++++++++++++++---
 analysis/document.go          |  24 +++++++-
 analysis/foreach.go           |  33 +++++++---
 analysis/globalVariable.go    |   6 ++
 analysis/loop.go              |  40 ++++++++++++
 analysis/parameter.go         |   7 +++
 analysis/symbolBlock.go       |  31 ++++++++--
 analysis/try.go               |  28 ++++++++-
 analysis/variable.go          | 111 ++++++++++++++++++++++++++++------
 internal/lsp/reference.go     |  22 +++----
 11 files changed, 383 insertions(+), 63 deletions(-)
 create mode 100644 analysis/loop.go

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 2189a13..b46c46a 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"log"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -46,6 +47,31 @@ func newAnonymousFunction(a analyser, document *Document, node *phrase.Phrase) S
 	return anonFunc
 }
 
+func newArrowFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	outerTable := document.getCurrentVariableTable()
+	anonFunc := &AnonymousFunction{
+		location: document.GetNodeLocation(node),
+	}
+	document.pushVariableTable(node)
+	document.pushBlock(anonFunc)
+	variableTable := document.getCurrentVariableTable()
+	for _, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if ok && p.Type == phrase.ArrowFunctionHeader {
+			anonFunc.analyseHeader(a, document, p, variableTable, outerTable)
+			for _, param := range anonFunc.Params {
+				variableTable.add(a, param.ToVariable(), document.NodeRange(p).End, true)
+			}
+			variableTable.outer = outerTable
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	document.popVariableTable()
+	document.popBlock()
+	return anonFunc
+}
+
 func (s *AnonymousFunction) analyseHeader(a analyser, document *Document, node *phrase.Phrase,
 	variableTable *VariableTable, prevVariableTable *VariableTable) {
 	traverser := util.NewTraverser(node)
@@ -91,12 +117,19 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 					for child != nil {
 						if p, ok := child.(*phrase.Phrase); ok {
 							if p.Type == phrase.AnonymousFunctionUseVariable {
-								variable, shouldAdd := newVariable(a, document, p, true)
-								prevVariableTable.add(a, variable, variable.GetLocation().Range.End, false)
-								if shouldAdd {
-									document.addSymbol(variable)
+								variable, isReference := newUseVariable(document, p)
+								if variable == nil {
+									child = traverser.Advance()
+									continue
+								}
+								document.pushVariable(a, variable, variable.GetLocation().Range.End, true)
+								prevVariableTable.Owner(variable.Name).add(a, variable, variable.GetLocation().Range.End, false)
+								if isReference {
+									variableTable.setShared(variable.Name)
+									prevVariableTable.Owner(variable.Name).setShared(variable.Name)
 								}
-								prevVariable := prevVariableTable.get(variable.Name, variable.Location.Range.Start)
+								document.addSymbol(variable)
+								prevVariable := prevVariableTable.Owner(variable.Name).get(variable.Name, variable.Location.Range.Start)
 								if prevVariable != nil {
 									variable.mergeTypesWithVariable(prevVariable)
 								}
@@ -116,6 +149,22 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 	}
 }
 
+// newUseVariable returns the variable in a use clause, and whether it is used by reference
+func newUseVariable(document *Document, node *phrase.Phrase) (*Variable, bool) {
+	isReference := false
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok {
+			switch t.Type {
+			case lexer.Ampersand:
+				isReference = true
+			case lexer.VariableName:
+				return newVariableWithoutPushing(document, t), isReference
+			}
+		}
+	}
+	return nil, isReference
+}
+
 func (s *AnonymousFunction) GetLocation() protocol.Location {
 	return s.location
 }
diff --git a/analysis/assignment.go b/analysis/assignment.go
index 24f8779..83a1878 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
@@ -13,10 +14,17 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	firstChild := traverser.Advance()
 	haveProcessed := false
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		if p.Type == phrase.SimpleVariable {
+		if p.Type == phrase.SimpleVariable && !isVariableVariable(p) {
 			analyseVariableAssignment(a, document, p, traverser.Clone(), node)
 			haveProcessed = true
 		}
+		if isDestructuring(p) {
+			for child := traverser.Advance(); child != nil; child = traverser.Advance() {
+				scanNode(a, document, child)
+			}
+			analyseDestructuring(a, document, p, document.NodeRange(node).End)
+			haveProcessed = true
+		}
 		if p.Type == phrase.PropertyAccessExpression {
 			block := document.currentBlock()
 			if method, ok := block.(*Method); ok && strings.ToLower(method.Name) == "__construct" {
@@ -38,18 +46,27 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 
 func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, traverser *util.Traverser, parent *phrase.Phrase) {
 	traverser.Advance()
-	traverser.SkipToken(lexer.Whitespace)
-	if parent.Type == phrase.CompoundAssignmentExpression {
-		traverser.SkipToken(lexer.DotEquals)
-	} else {
-		traverser.SkipToken(lexer.Equals)
+	var rhs phrase.AstNode
+	hasOperator := false
+	for rhs = traverser.Advance(); rhs != nil; rhs = traverser.Advance() {
+		t, ok := rhs.(*lexer.Token)
+		if !ok {
+			break
+		}
+		if t.Type == lexer.Whitespace || t.Type == lexer.Comment {
+			continue
+		}
+		if hasOperator && t.Type != lexer.Ampersand {
+			break
+		}
+		hasOperator = true
 	}
-	traverser.SkipToken(lexer.Whitespace)
 	if parent.Type == phrase.ByRefAssignmentExpression {
-		traverser.SkipToken(lexer.Ampersand)
-		traverser.SkipToken(lexer.Whitespace)
+		shareReference(document, lhs)
+		if p, ok := rhs.(*phrase.Phrase); ok {
+			shareReference(document, p)
+		}
 	}
-	rhs := traverser.Advance()
 	phpDoc := document.getValidPhpDoc(document.GetNodeLocation(lhs))
 	variable := newVariableWithoutPushing(document, lhs)
 	if phpDoc != nil {
@@ -80,6 +97,54 @@ func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phras
 	}
 }
 
+// shareReference marks the variables which refer to the same value
+func shareReference(document *Document, node *phrase.Phrase) {
+	if node.Type == phrase.SimpleVariable && !isVariableVariable(node) {
+		name := document.GetNodeText(node)
+		document.getCurrentVariableTable().Owner(name).setShared(name)
+	}
+}
+
+func isDestructuring(node *phrase.Phrase) bool {
+	return node.Type == phrase.ListIntrinsic || node.Type == phrase.ArrayCreationExpression
+}
+
+// analyseDestructuring declares the variables in a list() or a [], they have their values from end onwards
+func analyseDestructuring(a analyser, document *Document, node *phrase.Phrase, end protocol.Position) {
+	for _, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok {
+			scanNode(a, document, child)
+			continue
+		}
+		switch p.Type {
+		case phrase.ListIntrinsic, phrase.ArrayCreationExpression, phrase.ArrayInitialiserList, phrase.ArrayElement:
+			analyseDestructuring(a, document, p, end)
+		case phrase.ArrayValue:
+			for _, value := range p.Children {
+				if t, ok := value.(*lexer.Token); ok && t.Type == lexer.Ampersand {
+					for _, other := range p.Children {
+						if v, ok := other.(*phrase.Phrase); ok {
+							shareReference(document, v)
+						}
+					}
+				}
+			}
+			analyseDestructuring(a, document, p, end)
+		case phrase.SimpleVariable:
+			if isVariableVariable(p) {
+				scanNode(a, document, p)
+				continue
+			}
+			variable := newVariableWithoutPushing(document, p)
+			document.addSymbol(variable)
+			document.pushVariable(a, variable, end, true)
+		default:
+			scanNode(a, document, p)
+		}
+	}
+}
+
 func processPropertyAccessAssignment(a analyser, document *Document, node *phrase.Phrase, parent *phrase.Phrase) {
 	var (
 		lhsExpr HasTypes
diff --git a/analysis/document.go b/analysis/document.go
index 8afc588..ae08fed 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -398,8 +398,30 @@ func (s *Document) GetVariableTableAt(pos protocol.Position) *VariableTable {
 	return traverseAndFind(lastFoundVarTable)
 }
 
+// VariableAt returns the variable at the position and the table it belongs to
+func (s *Document) VariableAt(pos protocol.Position) (*VariableTable, *Variable) {
+	var (
+		foundTable *VariableTable
+		found      *Variable
+	)
+	for vt := s.GetVariableTableAt(pos); vt != nil; vt = vt.outer {
+		for _, ctxVars := range vt.variables {
+			for _, ctxVar := range ctxVars {
+				r := ctxVar.v.GetLocation().Range
+				if startsIn(r, pos) {
+					return vt, ctxVar.v
+				}
+				if protocol.ComparePos(r.End, pos) == 0 {
+					foundTable, found = vt, ctxVar.v
+				}
+			}
+		}
+	}
+	return foundTable, found
+}
+
 func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Position, isDeclaration bool) {
-	variableTable := s.getCurrentVariableTable()
+	variableTable := s.getCurrentVariableTable().Owner(variable.Name)
 	currentVariable := variableTable.get(variable.Name, pos)
 	if currentVariable != nil {
 		variable.mergeTypesWithVariable(currentVariable)
diff --git a/analysis/foreach.go b/analysis/foreach.go
index 593d554..3a959c2 100644
--- a/analysis/foreach.go
+++ b/analysis/foreach.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -15,19 +16,24 @@ func analyseForeachStatement(a analyser, document *Document, node *phrase.Phrase
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	var f *ForeachCollection = nil
+	loop := document.NodeRange(node)
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
 			case phrase.ForeachCollection:
 				f = newForeachCollection(a, document, p)
+				loop.Start = document.NodeRange(p).End
+			case phrase.ForeachKey:
+				analyseForeachValue(a, document, nil, p)
 			case phrase.ForeachValue:
 				analyseForeachValue(a, document, f, p)
-			case phrase.CompoundStatement, phrase.StatementList:
-				scanForChildren(a, document, p)
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
 	}
+	document.getCurrentVariableTable().addLoop(loop)
 	return nil, false
 }
 
@@ -39,8 +45,9 @@ func newForeachCollection(a analyser, document *Document, node *phrase.Phrase) *
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
-			expr := scanForExpression(a, document, p)
-			if expr != nil {
+			if _, ok := nodeTypeToExprConstructor[p.Type]; !ok {
+				scanNode(a, document, p)
+			} else if expr := scanForExpression(a, document, p); expr != nil {
 				f.setExpression(expr)
 			}
 		}
@@ -53,13 +60,23 @@ func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, n
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	for child != nil {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Ampersand {
+			for _, other := range node.Children {
+				if p, ok := other.(*phrase.Phrase); ok {
+					shareReference(document, p)
+				}
+			}
+		}
 		if p, ok := child.(*phrase.Phrase); ok {
-			switch p.Type {
-			case phrase.SimpleVariable:
-				if v, shouldAdd := newVariable(a, document, p, true); shouldAdd {
+			if isDestructuring(p) {
+				analyseDestructuring(a, document, p, document.NodeRange(p).End)
+			} else if p.Type != phrase.SimpleVariable || isVariableVariable(p) {
+				scanNode(a, document, p)
+			} else if v, shouldAdd := newVariable(a, document, p, true); shouldAdd {
+				if f != nil {
 					v.setExpression(f)
-					document.addSymbol(v)
 				}
+				document.addSymbol(v)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/globalVariable.go b/analysis/globalVariable.go
index e4c401b..f2d0c00 100644
--- a/analysis/globalVariable.go
+++ b/analysis/globalVariable.go
@@ -35,6 +35,11 @@ func analyseVariableNameList(a analyser, document *Document, node *phrase.Phrase
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
+			if isVariableVariable(p) {
+				scanNode(a, document, p)
+				child = traverser.Advance()
+				continue
+			}
 			globalVariable := newGlobalVariable(a, document, p)
 			document.addSymbol(globalVariable)
 		}
@@ -54,6 +59,7 @@ func newGlobalVariable(a analyser, document *Document, node *phrase.Phrase) Symb
 	}
 	variableTable := document.getCurrentVariableTable()
 	variableTable.setReferenceGlobal(globalVariable.GetName())
+	variableTable.setShared(globalVariable.GetName())
 	document.pushVariable(a, globalVariable.toVariable(), globalVariable.location.Range.End, true)
 	return globalVariable
 }
diff --git a/analysis/loop.go b/analysis/loop.go
new file mode 100644
index 0000000..cf0158a
--- /dev/null
+++ b/analysis/loop.go
@@ -0,0 +1,40 @@
+package analysis
+
+import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
+	"github.com/john-nguyen09/go-phpparser/phrase"
+)
+
+func processLoop(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	scanForChildren(a, document, node)
+	document.getCurrentVariableTable().addLoop(document.NodeRange(node))
+	return nil
+}
+
+func processForStatement(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	scanForChildren(a, document, node)
+	// What is before the first semi-colon is executed only once
+	loop := document.NodeRange(node)
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Semicolon {
+			loop.Start = document.NodeRange(t).End
+			break
+		}
+	}
+	document.getCurrentVariableTable().addLoop(loop)
+	return nil
+}
+
+func processStaticVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
+			variable := newVariableWithoutPushing(document, t)
+			document.addSymbol(variable)
+			document.pushVariable(a, variable, document.NodeRange(node).End, true)
+			document.getCurrentVariableTable().setShared(variable.Name)
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	return nil
+}
diff --git a/analysis/parameter.go b/analysis/parameter.go
index 3619e35..afc4ced 100644
--- a/analysis/parameter.go
+++ b/analysis/parameter.go
@@ -28,6 +28,7 @@ func newParameter(a analyser, document *Document, node *phrase.Phrase) *Paramete
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	hasEqual := false
+	isReference := false
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
@@ -53,6 +54,7 @@ func newParameter(a analyser, document *Document, node *phrase.Phrase) *Paramete
 				if hasEqual {
 					param.hasValue = true
 					param.Value += document.getPhraseText(p)
+					scanNode(a, document, p)
 				}
 			}
 		} else if token, ok := child.(*lexer.Token); ok {
@@ -60,9 +62,14 @@ func newParameter(a analyser, document *Document, node *phrase.Phrase) *Paramete
 			case lexer.Equals:
 				hasEqual = true
 				traverser.SkipToken(lexer.Whitespace)
+			case lexer.Ampersand:
+				isReference = true
 			case lexer.VariableName:
 				param.Name = document.getTokenText(token)
 				param.varLocation = document.GetNodeLocation(token)
+				if isReference {
+					document.getCurrentVariableTable().setShared(param.Name)
+				}
 			default:
 				if hasEqual {
 					param.hasValue = true
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 74f4d3d..0ceea5c 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -23,7 +23,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.InterfaceMemberDeclarationList,
 	phrase.TraitMemberDeclarationList,
 	phrase.CompoundStatement,
-	phrase.WhileStatement,
 	phrase.StatementList,
 	phrase.AdditiveExpression,
 	phrase.MultiplicativeExpression,
@@ -34,7 +33,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.ExpressionList,
 	phrase.TryStatement,
 	phrase.CatchClauseList,
-	phrase.CatchClause,
 	phrase.ReturnStatement,
 	phrase.ArrayCreationExpression,
 	phrase.ArrayInitialiserList,
@@ -44,7 +42,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.LogicalExpression,
 	phrase.RelationalExpression,
 	phrase.EqualityExpression,
-	phrase.ForStatement,
 	phrase.UnaryOpExpression,
 	phrase.ThrowStatement,
 	phrase.ElseIfClauseList,
@@ -69,12 +66,31 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.ForInitialiser,
 	phrase.ForControl,
 	phrase.ForEndOfLoop,
-	phrase.DoStatement,
 	phrase.DoubleQuotedStringLiteral,
 	phrase.EncapsulatedVariableList,
 	phrase.EncapsulatedVariable,
 	phrase.RequireOnceExpression,
 	phrase.ErrorControlExpression,
+	phrase.BitwiseExpression,
+	phrase.CoalesceExpression,
+	phrase.DeclareStatement,
+	phrase.ExitIntrinsic,
+	phrase.ExponentiationExpression,
+	phrase.FinallyClause,
+	phrase.ForExpressionGroup,
+	phrase.FunctionStaticDeclaration,
+	phrase.FunctionStaticInitialiser,
+	phrase.HeredocStringLiteral,
+	phrase.IncludeOnceExpression,
+	phrase.NamedLabelStatement,
+	phrase.PrintIntrinsic,
+	phrase.RequireExpression,
+	phrase.ShellCommandExpression,
+	phrase.ShiftExpression,
+	phrase.StaticVariableDeclarationList,
+	phrase.YieldExpression,
+	phrase.VariadicUnpacking,
+	phrase.YieldFromExpression,
 })
 
 var /*const */ tokenToSymbolConstructor = map[lexer.TokenType]symbolConstructorForToken{
@@ -100,8 +116,13 @@ func init() {
 		phrase.NamespaceUseDeclaration:             processNamespaceUseDeclaration,
 		phrase.AnonymousFunctionCreationExpression: newAnonymousFunction,
 		phrase.AnonymousClassDeclaration:           newAnonymousClass,
+		phrase.ArrowFunctionCreationExpression:     newArrowFunction,
 		phrase.DocumentComment:                     newPhpDocFromNode,
-		phrase.CatchNameList:                       processCatchNameList,
+		phrase.CatchClause:                         processCatchClause,
+		phrase.WhileStatement:                      processLoop,
+		phrase.DoStatement:                         processLoop,
+		phrase.ForStatement:                        processForStatement,
+		phrase.StaticVariableDeclaration:           processStaticVariable,
 	}
 }
 
diff --git a/analysis/try.go b/analysis/try.go
index b75290a..2f112e2 100644
--- a/analysis/try.go
+++ b/analysis/try.go
@@ -1,11 +1,34 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
-func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) Symbol {
+func processCatchClause(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	types := newTypeComposite()
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			if p.Type == phrase.CatchNameList {
+				types = processCatchNameList(a, document, p)
+			} else {
+				scanNode(a, document, p)
+			}
+		} else if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
+			variable := newVariableWithoutPushing(document, t)
+			variable.Type.merge(types)
+			document.pushVariable(a, variable, variable.GetLocation().Range.End, true)
+			// The variable cannot be left out, therefore it does not have to be read
+			document.getCurrentVariableTable().setNotRequired(variable)
+			document.addSymbol(variable)
+		}
+	}
+	return nil
+}
+
+func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) TypeComposite {
+	types := newTypeComposite()
 	traverser := util.NewTraverser(node)
 	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 		if p, ok := child.(*phrase.Phrase); ok {
@@ -13,8 +36,9 @@ func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) S
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				classAccess := newClassAccess(a, document, p)
 				document.addSymbol(classAccess)
+				types.merge(classAccess.GetTypes())
 			}
 		}
 	}
-	return nil
+	return types
 }
diff --git a/analysis/variable.go b/analysis/variable.go
index 2dbac7b..eaa6654 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -16,16 +16,30 @@ type Variable struct {
 }
 
 func newVariableExpression(a analyser, document *Document, node *phrase.Phrase) (HasTypes, bool) {
+	if isVariableVariable(node) {
+		scanForChildren(a, document, node)
+		return nil, false
+	}
 	return newVariable(a, document, node, false)
 }
 
-func newVariable(a analyser, document *Document, node *phrase.Phrase, isDeclaration bool) (*Variable, bool) {
+// isVariableVariable tells if the name of the variable is itself computed, e.g. $$name
+func isVariableVariable(node *phrase.Phrase) bool {
+	for _, child := range node.Children {
+		if _, ok := child.(*phrase.Phrase); ok {
+			return true
+		}
+	}
+	return false
+}
+
+func newVariable(a analyser, document *Document, node phrase.AstNode, isDeclaration bool) (*Variable, bool) {
 	variable := newVariableWithoutPushing(document, node)
 	document.pushVariable(a, variable, variable.GetLocation().Range.End, isDeclaration)
 	return variable, true
 }
 
-func newVariableWithoutPushing(document *Document, node *phrase.Phrase) *Variable {
+func newVariableWithoutPushing(document *Document, node phrase.AstNode) *Variable {
 	variable := &Variable{
 		Expression: Expression{
 			Name:     document.GetNodeText(node),
@@ -110,8 +124,6 @@ type contextualVariable struct {
 	v             *Variable
 	start         protocol.Position
 	isDeclaration bool
-	// If isDeclaration is false then this is not used
-	isUsed bool
 }
 
 func newContextualVariable(v *Variable, start protocol.Position, isDeclaration bool) contextualVariable {
@@ -134,6 +146,18 @@ type VariableTable struct {
 	globalDeclares map[string]bool
 	level          int
 	children       []*VariableTable
+
+	// The variables whose values are visible outside of the table, they are global,
+	// static or references
+	shared map[string]bool
+	// The declarations which are fine without being read
+	notRequired map[*Variable]bool
+	// What is executed repeatedly, a value given in a loop can be read by what
+	// comes before it in the loop
+	loops []protocol.Range
+	// An arrow function uses the variables of the outer table, except its own
+	// parameters
+	outer *VariableTable
 }
 
 func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
@@ -142,25 +166,25 @@ func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
 		variables:      map[string][]contextualVariable{},
 		globalDeclares: map[string]bool{},
 		level:          level,
+		shared:         map[string]bool{},
+		notRequired:    map[*Variable]bool{},
 	}
 }
 
+// Owner returns the table which the variable with the given name belongs to
+func (vt *VariableTable) Owner(name string) *VariableTable {
+	for vt.outer != nil {
+		if _, ok := vt.variables[name]; ok {
+			break
+		}
+		vt = vt.outer
+	}
+	return vt
+}
+
 func (vt *VariableTable) add(a analyser, variable *Variable, start protocol.Position, isDeclaration bool) {
 	currentVars := []contextualVariable{}
 	newCtxVar := newContextualVariable(variable, start, isDeclaration)
-	if !isDeclaration {
-		pos := variable.GetLocation().Range.Start
-		if ctxVars, ok := vt.variables[variable.Name]; ok {
-			for i, ctxVar := range ctxVars {
-				if protocol.ComparePos(pos, ctxVar.v.GetLocation().Range.Start) <= 0 {
-					break
-				}
-				if ctxVar.isDeclaration && ctxVar.v.Name == variable.Name {
-					ctxVars[i].isUsed = true
-				}
-			}
-		}
-	}
 	if prevVars, ok := vt.variables[variable.Name]; ok {
 		index := 0
 		if len(prevVars) > 0 {
@@ -214,6 +238,13 @@ func (vt *VariableTable) GetVariables(pos protocol.Position) []*Variable {
 			results = append(results, vars[index].v)
 		}
 	}
+	if vt.outer != nil {
+		for _, variable := range vt.outer.GetVariables(pos) {
+			if vt.Owner(variable.Name) != vt {
+				results = append(results, variable)
+			}
+		}
+	}
 	return results
 }
 
@@ -221,11 +252,34 @@ func (vt *VariableTable) addChild(child *VariableTable) {
 	vt.children = append(vt.children, child)
 }
 
+// setShared marks that the values of the variable can be read outside of the table
+func (vt *VariableTable) setShared(name string) {
+	vt.shared[name] = true
+}
+
+// setNotRequired marks a declaration which does not have to be read
+func (vt *VariableTable) setNotRequired(variable *Variable) {
+	vt.notRequired[variable] = true
+}
+
+func (vt *VariableTable) addLoop(loop protocol.Range) {
+	vt.loops = append(vt.loops, loop)
+}
+
 func (vt *VariableTable) unusedVariables() []*Variable {
 	results := []*Variable{}
-	for _, ctxVars := range vt.variables {
+	for name, ctxVars := range vt.variables {
+		if vt.shared[name] && len(ctxVars) > 1 {
+			continue
+		}
+		reads := []protocol.Position{}
+		for _, ctxVar := range ctxVars {
+			if !ctxVar.isDeclaration {
+				reads = append(reads, ctxVar.v.GetLocation().Range.Start)
+			}
+		}
 		for _, ctxVar := range ctxVars {
-			if ctxVar.isDeclaration && !ctxVar.isUsed {
+			if ctxVar.isDeclaration && !vt.notRequired[ctxVar.v] && !vt.isRead(ctxVar, reads) {
 				results = append(results, ctxVar.v)
 			}
 		}
@@ -233,6 +287,25 @@ func (vt *VariableTable) unusedVariables() []*Variable {
 	return results
 }
 
+// isRead tells if any of the reads comes after the declaration
+func (vt *VariableTable) isRead(declaration contextualVariable, reads []protocol.Position) bool {
+	for _, read := range reads {
+		if protocol.ComparePos(declaration.start, read) <= 0 {
+			return true
+		}
+		for _, loop := range vt.loops {
+			if startsIn(loop, declaration.v.GetLocation().Range.Start) && startsIn(loop, read) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+func startsIn(r protocol.Range, pos protocol.Position) bool {
+	return protocol.ComparePos(r.Start, pos) <= 0 && protocol.ComparePos(pos, r.End) < 0
+}
+
 // GetContextualVariables returns the variable instances with the given name
 func (vt *VariableTable) GetContextualVariables(name string) []contextualVariable {
 	if ctxVars, ok := vt.variables[name]; ok {
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index f0e162f..a041243 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -121,23 +121,19 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 		return nil, nil
 	}
 	pos := params.Position
-	symbol := doc.HasTypesAtPos(pos)
 	result := &protocol.WorkspaceEdit{
 		Changes: make(map[string][]protocol.TextEdit),
 	}
-	switch v := symbol.(type) {
-	case *analysis.Variable:
-		varTable := doc.GetVariableTableAt(pos)
-		if varTable != nil {
-			var changes []protocol.TextEdit
-			for _, ctxVar := range varTable.GetContextualVariables(v.Name) {
-				changes = append(changes, protocol.TextEdit{
-					Range:   ctxVar.Variable().Location.Range,
-					NewText: params.NewName,
-				})
-			}
-			result.Changes[uri] = changes
+	varTable, variable := doc.VariableAt(pos)
+	if variable != nil {
+		var changes []protocol.TextEdit
+		for _, ctxVar := range varTable.GetContextualVariables(variable.Name) {
+			changes = append(changes, protocol.TextEdit{
+				Range:   ctxVar.Variable().Location.Range,
+				NewText: params.NewName,
+			})
 		}
+		result.Changes[uri] = changes
 	}
 	return result, nil
 }
-- 
2.43.0


From 6ac8cd0df0ef8bfb662c4ef030f29289e922e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:06 +0000
Subject: [PATCH 43/57] fix: scan every operand of accesses, calls and
 instanceof for what it uses

---
 analysis/binaryExpression.go     |  5 ++++-
 analysis/classAccess.go          | 12 +++++++++++-
 analysis/classTypeDesignator.go  |  6 ++----
 analysis/expression.go           |  9 +++++++++
 analysis/functionCall.go         |  8 ++++++--
 analysis/memberAccess.go         |  3 +++
 analysis/methodAccess.go         |  2 +-
 analysis/propertyAccess.go       |  2 +-
 analysis/scopedConstantAccess.go |  2 +-
 analysis/scopedMethodAccess.go   | 11 ++++++++++-
 analysis/scopedPropertyAccess.go |  2 +-
 11 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/analysis/binaryExpression.go b/analysis/binaryExpression.go
index 4c56cf5..a0052fb 100644
--- a/analysis/binaryExpression.go
+++ b/analysis/binaryExpression.go
@@ -14,6 +14,9 @@ func newInstanceOfTypeDesignator(a analyser, document *Document, node *phrase.Ph
 			switch p.Type {
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				return newClassAccess(a, document, p), true
+			case phrase.RelativeScope, phrase.RelativeQualifiedName:
+			default:
+				scanOperand(a, document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -30,7 +33,7 @@ func processInstanceOfExpression(a analyser, document *Document, node *phrase.Ph
 	rhs := traverser.Advance()
 	if lhs, ok1 := lhs.(*phrase.Phrase); ok1 {
 		if rhs, ok2 := rhs.(*phrase.Phrase); ok2 {
-			lhsExpr := scanForExpression(a, document, lhs)
+			lhsExpr := scanOperand(a, document, lhs)
 			rhsExpr := scanForExpression(a, document, rhs)
 			if v, ok := lhsExpr.(*Variable); ok && rhsExpr != nil {
 				v.Type.merge(rhsExpr.GetTypes())
diff --git a/analysis/classAccess.go b/analysis/classAccess.go
index cfb2753..f69add9 100644
--- a/analysis/classAccess.go
+++ b/analysis/classAccess.go
@@ -39,14 +39,24 @@ func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassA
 			if expr != nil {
 				classAccess.Scope = expr
 			}
+		case phrase.RelativeScope:
+		default:
+			if expr := scanOperand(a, document, node); expr != nil {
+				classAccess.Scope = expr
+			}
 		}
 	}
 	classAccess.Type = types
 	return classAccess
 }
 
-func analyseMemberName(document *Document, node *phrase.Phrase) string {
+func analyseMemberName(a analyser, document *Document, node *phrase.Phrase) string {
 	if node.Type == phrase.ScopedMemberName {
+		for _, child := range node.Children {
+			if p, ok := child.(*phrase.Phrase); ok && p.Type != phrase.Identifier {
+				scanNode(a, document, p)
+			}
+		}
 		return document.getPhraseText(node)
 	}
 
diff --git a/analysis/classTypeDesignator.go b/analysis/classTypeDesignator.go
index fc1e6ba..090e0dc 100644
--- a/analysis/classTypeDesignator.go
+++ b/analysis/classTypeDesignator.go
@@ -55,10 +55,8 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 			case phrase.RelativeScope:
 				relativeScope := newRelativeScope(document, s.Location)
 				s.Type.merge(relativeScope.Types)
-			case phrase.SimpleVariable:
-				if variable, ok := newVariable(a, document, p, false); ok {
-					document.addSymbol(variable)
-				}
+			default:
+				scanOperand(a, document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/expression.go b/analysis/expression.go
index d1855f5..ec5b3b1 100644
--- a/analysis/expression.go
+++ b/analysis/expression.go
@@ -104,6 +104,15 @@ func scanForExpression(a analyser, document *Document, node *phrase.Phrase) HasT
 	return expression
 }
 
+// scanOperand scans what an expression is applied to
+func scanOperand(a analyser, document *Document, node *phrase.Phrase) HasTypes {
+	if _, ok := nodeTypeToExprConstructor[node.Type]; ok {
+		return scanForExpression(a, document, node)
+	}
+	scanNode(a, document, node)
+	return nil
+}
+
 type derivedExpression struct {
 	Expression
 	children    []Symbol
diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index c7797a5..bc74c49 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -48,8 +48,12 @@ func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	child := traverser.Advance()
 	firstChild := child
 	if firstChild != nil {
-		if p, ok := firstChild.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
-			scanForExpression(a, document, p)
+		if p, ok := firstChild.(*phrase.Phrase); ok {
+			switch p.Type {
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
+			default:
+				scanOperand(a, document, p)
+			}
 		}
 		functionCall.Location = document.GetNodeLocation(firstChild)
 		functionCall.Name = document.GetNodeText(firstChild)
diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index beea18e..0d2114d 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -40,6 +40,9 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 				}
 				return name, location
 			}
+			if p, ok := child.(*phrase.Phrase); ok {
+				scanNode(a, document, p)
+			}
 		}
 	} else if t, ok := memberName.(*lexer.Token); ok && t.Type == lexer.Name {
 		location = document.GetNodeLocation(t)
diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index e34b1ab..e57ae4a 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -23,7 +23,7 @@ func newMethodAccess(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			methodAccess.Scope = expression
 		}
diff --git a/analysis/propertyAccess.go b/analysis/propertyAccess.go
index 1bfd8ea..96f9733 100644
--- a/analysis/propertyAccess.go
+++ b/analysis/propertyAccess.go
@@ -24,7 +24,7 @@ func newPropertyAccess(a analyser, document *Document, node *phrase.Phrase) (Has
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			propertyAccess.Scope = expression
 		}
diff --git a/analysis/scopedConstantAccess.go b/analysis/scopedConstantAccess.go
index 84df739..74c23c1 100644
--- a/analysis/scopedConstantAccess.go
+++ b/analysis/scopedConstantAccess.go
@@ -31,7 +31,7 @@ func newScopedConstantAccess(a analyser, document *Document, node *phrase.Phrase
 	thirdChild := traverser.Advance()
 	constantAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
-		constantAccess.Name = analyseMemberName(document, p)
+		constantAccess.Name = analyseMemberName(a, document, p)
 	}
 	return constantAccess, true
 }
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index 4c06c04..31e71fa 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -33,7 +34,15 @@ func newScopedMethodAccess(a analyser, document *Document, node *phrase.Phrase)
 	thirdChild := traverser.Advance()
 	methodAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
-		methodAccess.Name = analyseMemberName(document, p)
+		methodAccess.Name = analyseMemberName(a, document, p)
+		// In A::$name() the name of the method is in a variable
+		if len(p.Children) == 1 {
+			if t, ok := p.Children[0].(*lexer.Token); ok && t.Type == lexer.VariableName {
+				variable := newVariableWithoutPushing(document, t)
+				document.pushVariable(a, variable, variable.GetLocation().Range.End, false)
+				document.addSymbol(variable)
+			}
+		}
 	}
 	document.addSymbol(methodAccess)
 	child := traverser.Advance()
diff --git a/analysis/scopedPropertyAccess.go b/analysis/scopedPropertyAccess.go
index 210e61c..94cd53a 100644
--- a/analysis/scopedPropertyAccess.go
+++ b/analysis/scopedPropertyAccess.go
@@ -34,7 +34,7 @@ func newScopedPropertyAccess(a analyser, document *Document, node *phrase.Phrase
 	thirdChild := traverser.Advance()
 	propertyAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
-		propertyAccess.Name = analyseMemberName(document, p)
+		propertyAccess.Name = analyseMemberName(a, document, p)
 	}
 	return propertyAccess, true
 }
-- 
2.43.0


From 0c977018f60b4e7df5aea666baca63e3db281fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:57 +0000
Subject: [PATCH 44/57] fix: resolve relative names and find definitions of
 return types and extended interfaces

namespace\Name was ignored in new, extends, implements, use, catch, instanceof, X:: and
types, and names in return types, nullable types and after an interface's extends had no
definition.
---
 analysis/binaryExpression.go    |  4 ++--
 analysis/class.go               |  4 ++--
 analysis/classAccess.go         |  2 +-
 analysis/classTypeDesignator.go |  2 +-
 analysis/document.go            | 11 +++++++++++
 analysis/interface.go           |  2 +-
 analysis/interfaceAccess.go     |  2 +-
 analysis/phpDocComment.go       |  3 +--
 analysis/symbol.go              |  8 ++++++++
 analysis/traitAccess.go         |  4 ++--
 analysis/try.go                 |  2 +-
 analysis/typeDeclaration.go     |  2 +-
 internal/lsp/definition.go      | 25 +++++++++++++++++--------
 13 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/analysis/binaryExpression.go b/analysis/binaryExpression.go
index a0052fb..b71b1e3 100644
--- a/analysis/binaryExpression.go
+++ b/analysis/binaryExpression.go
@@ -12,9 +12,9 @@ func newInstanceOfTypeDesignator(a analyser, document *Document, node *phrase.Ph
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
-			case phrase.QualifiedName, phrase.FullyQualifiedName:
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
 				return newClassAccess(a, document, p), true
-			case phrase.RelativeScope, phrase.RelativeQualifiedName:
+			case phrase.RelativeScope:
 			default:
 				scanOperand(a, document, p)
 			}
diff --git a/analysis/class.go b/analysis/class.go
index 01d8884..eba2f1e 100644
--- a/analysis/class.go
+++ b/analysis/class.go
@@ -144,7 +144,7 @@ func (s *Class) extends(a analyser, document *Document, p *phrase.Phrase) {
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
-			case phrase.QualifiedName, phrase.FullyQualifiedName:
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
 				{
 					s.Extends = transformQualifiedName(p, document)
 					s.Extends.SetFQN(document.currImportTable().GetClassReferenceFQN(s.Extends))
@@ -170,7 +170,7 @@ func (s *Class) implements(document *Document, p *phrase.Phrase) {
 			traverser, _ = traverser.Descend()
 			child = traverser.Advance()
 			for child != nil {
-				if p, ok = child.(*phrase.Phrase); ok && (p.Type == phrase.QualifiedName || p.Type == phrase.FullyQualifiedName) {
+				if p, ok = child.(*phrase.Phrase); ok && isQualifiedName(p) {
 					typeString := transformQualifiedName(p, document)
 					typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 					s.Interfaces = append(s.Interfaces, typeString)
diff --git a/analysis/classAccess.go b/analysis/classAccess.go
index f69add9..8e6a926 100644
--- a/analysis/classAccess.go
+++ b/analysis/classAccess.go
@@ -30,7 +30,7 @@ func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassA
 		types.merge(parentScope.Types)
 	} else {
 		switch node.Type {
-		case phrase.QualifiedName, phrase.FullyQualifiedName:
+		case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
 			typeString := transformQualifiedName(node, document)
 			typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 			types.add(typeString)
diff --git a/analysis/classTypeDesignator.go b/analysis/classTypeDesignator.go
index 090e0dc..be9abf1 100644
--- a/analysis/classTypeDesignator.go
+++ b/analysis/classTypeDesignator.go
@@ -47,7 +47,7 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
-			case phrase.QualifiedName, phrase.FullyQualifiedName:
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
 				typeString := transformQualifiedName(p, document)
 				typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 				s.Name = typeString.GetOriginal()
diff --git a/analysis/document.go b/analysis/document.go
index ae08fed..d425e0b 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -114,6 +114,17 @@ type typeName struct {
 	location protocol.Location
 }
 
+// TypeNameAtPos returns the fully qualified name of the type which is written at the position
+// outside of symbols
+func (s *Document) TypeNameAtPos(pos protocol.Position) (string, bool) {
+	for _, name := range s.typeNames {
+		if protocol.IsInRange(pos, name.location.Range) == 0 {
+			return name.fqn, true
+		}
+	}
+	return "", false
+}
+
 func (s *Document) scanTypeNames(node *phrase.Phrase, inType bool) {
 	switch node.Type {
 	case phrase.ReturnType, phrase.InterfaceBaseClause:
diff --git a/analysis/interface.go b/analysis/interface.go
index 251207a..24d7996 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -85,7 +85,7 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 			}
 			child = traverser.Advance()
 			for child != nil {
-				if p, ok := child.(*phrase.Phrase); ok && (p.Type == phrase.QualifiedName || p.Type == phrase.FullyQualifiedName) {
+				if p, ok := child.(*phrase.Phrase); ok && isQualifiedName(p) {
 					extend := transformQualifiedName(p, document)
 					document.currImportTable().GetClassReferenceFQN(extend) // marks its import as used
 					s.Extends = append(s.Extends, extend)
diff --git a/analysis/interfaceAccess.go b/analysis/interfaceAccess.go
index dc83d4b..5a805eb 100644
--- a/analysis/interfaceAccess.go
+++ b/analysis/interfaceAccess.go
@@ -18,7 +18,7 @@ func newInterfaceAccess(document *Document, node *phrase.Phrase) *InterfaceAcces
 		},
 	}
 	types := newTypeComposite()
-	if node.Type == phrase.QualifiedName || node.Type == phrase.FullyQualifiedName {
+	if isQualifiedName(node) {
 		typeString := transformQualifiedName(node, document)
 		typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 		types.add(typeString)
diff --git a/analysis/phpDocComment.go b/analysis/phpDocComment.go
index 9fd866d..2f52d2a 100644
--- a/analysis/phpDocComment.go
+++ b/analysis/phpDocComment.go
@@ -38,8 +38,7 @@ func processTypeNode(document *Document, node *phrase.Phrase) string {
 	}
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
-	if p, ok := child.(*phrase.Phrase); ok && (p.Type == phrase.QualifiedName ||
-		p.Type == phrase.FullyQualifiedName) {
+	if p, ok := child.(*phrase.Phrase); ok && isQualifiedName(p) {
 		typeDecl := newTypeDeclaration(document, node)
 		document.addSymbol(typeDecl)
 	}
diff --git a/analysis/symbol.go b/analysis/symbol.go
index b6560d6..33d5216 100644
--- a/analysis/symbol.go
+++ b/analysis/symbol.go
@@ -95,6 +95,14 @@ type HasParamsResolvable interface {
 	ResolveToHasParams(ctx ResolveContext) []HasParams
 }
 
+func isQualifiedName(n *phrase.Phrase) bool {
+	switch n.Type {
+	case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
+		return true
+	}
+	return false
+}
+
 func transformQualifiedName(n *phrase.Phrase, document *Document) TypeString {
 	return NewTypeString(document.GetNodeText(n))
 }
diff --git a/analysis/traitAccess.go b/analysis/traitAccess.go
index 41b36cd..479fc41 100644
--- a/analysis/traitAccess.go
+++ b/analysis/traitAccess.go
@@ -34,7 +34,7 @@ func traitAnalyseQualifiedNameList(document *Document, node *phrase.Phrase) {
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
-			case phrase.QualifiedName, phrase.FullyQualifiedName:
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
 				traitAccess := newTraitAccess(document, p)
 				document.addSymbol(traitAccess)
 				if class, ok := currentClass.(*Class); ok {
@@ -56,7 +56,7 @@ func newTraitAccess(document *Document, node *phrase.Phrase) *TraitAccess {
 		},
 	}
 	types := newTypeComposite()
-	if node.Type == phrase.QualifiedName || node.Type == phrase.FullyQualifiedName {
+	if isQualifiedName(node) {
 		typeString := transformQualifiedName(node, document)
 		typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 		types.add(typeString)
diff --git a/analysis/try.go b/analysis/try.go
index 2f112e2..5c9bf7b 100644
--- a/analysis/try.go
+++ b/analysis/try.go
@@ -33,7 +33,7 @@ func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) T
 	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
-			case phrase.QualifiedName, phrase.FullyQualifiedName:
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
 				classAccess := newClassAccess(a, document, p)
 				document.addSymbol(classAccess)
 				types.merge(classAccess.GetTypes())
diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index 1c4d590..16e9bbb 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -29,7 +29,7 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
-			case phrase.QualifiedName, phrase.FullyQualifiedName:
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
 				typeString := transformQualifiedName(p, document)
 				typeDeclaration.Name = typeString.GetOriginal()
 				typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index b30f609..beec977 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -24,6 +24,10 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 	resolveCtx := analysis.NewResolveContext(q, document)
 	pos := params.TextDocumentPositionParams.Position
 	symbol := document.HasTypesAtPos(pos)
+	if fqn, ok := document.TypeNameAtPos(pos); ok {
+		locations = typeLocations(q, fqn)
+		symbol = nil
+	}
 
 	switch v := symbol.(type) {
 	case *analysis.ClassTypeDesignator:
@@ -126,14 +130,7 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 		}
 	case *analysis.TypeDeclaration:
 		for _, typeString := range v.Type.Resolve() {
-			classes := q.GetClasses(typeString.GetFQN())
-			for _, class := range classes {
-				locations = append(locations, class.GetLocation())
-			}
-			interfaces := q.GetInterfaces(typeString.GetFQN())
-			for _, theInterface := range interfaces {
-				locations = append(locations, theInterface.GetLocation())
-			}
+			locations = append(locations, typeLocations(q, typeString.GetFQN())...)
 		}
 	}
 	filteredLocations := locations[:0]
@@ -144,3 +141,15 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 	}
 	return filteredLocations, nil
 }
+
+// typeLocations returns where the class or interface with the name is
+func typeLocations(q *analysis.Query, fqn string) []protocol.Location {
+	locations := []protocol.Location{}
+	for _, class := range q.GetClasses(fqn) {
+		locations = append(locations, class.GetLocation())
+	}
+	for _, theInterface := range q.GetInterfaces(fqn) {
+		locations = append(locations, theInterface.GetLocation())
+	}
+	return locations
+}
-- 
2.43.0


From e305f9038b979774272e40c2e108689a3cd41039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:57 +0000
Subject: [PATCH 45/57] fix: completed names and their imports refer to the
 chosen symbol

The use declaration was inserted into the last namespace of the file, before a declare or
with an alias which was taken, aliases of classes were used for functions and constants,
names were left unqualified though an import or a function of the namespace hides them,
and the scope of a qualified word was not resolved.
---
 analysis/document.go       |   1 -
 analysis/importTable.go    | 152 ++++++++++++++++++++++++++-----------
 analysis/insertUse.go      |  94 +++++++++++++++++------
 internal/lsp/completion.go |  55 ++++++++------
 4 files changed, 208 insertions(+), 94 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index d425e0b..90580b3 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -36,7 +36,6 @@ type Document struct {
 	hasChanges         bool
 	typeNames          []typeName
 	importTables       []*ImportTable
-	insertUseContext   *InsertUseContext
 
 	blockStack []BlockSymbol
 }
diff --git a/analysis/importTable.go b/analysis/importTable.go
index 807da7d..39736cd 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/john-nguyen09/go-phpparser/phrase"
@@ -73,6 +74,19 @@ func (i *ImportTable) setNamespace(namespace *Namespace) {
 	i.namespace = namespace
 }
 
+// importOf returns the import with the alias, only those of constants are case-sensitive
+func (i ImportTable) importOf(aliases map[string]*importItem, alias string) *importItem {
+	if item, ok := aliases[alias]; ok {
+		return item
+	}
+	for a, item := range aliases {
+		if strings.EqualFold(a, alias) && i.constants[a] != item {
+			return item
+		}
+	}
+	return nil
+}
+
 // resolve gives the fully qualified name of a name which does not depend on what exists, i.e.
 // all names except unqualified functions and constants which are not imported. aliases are the
 // imports of unqualified names, qualified names are always relative to imported namespaces
@@ -90,7 +104,7 @@ func (i ImportTable) resolve(name TypeString, aliases map[string]*importItem) (s
 		}
 		aliases = i.classes
 	}
-	if item, ok := aliases[firstPart]; ok {
+	if item := i.importOf(aliases, firstPart); item != nil {
 		return "\\" + strings.Join(append([]string{item.name}, parts...), "\\"), true
 	}
 	name.SetNamespace(i.GetNamespace())
@@ -144,51 +158,105 @@ func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
 	return fqn
 }
 
+// ResolveToQualified returns how the symbol is written in place of the last part of the word, and
+// the use declaration which is needed for it
 func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
-	if IsFQN(word) {
+	return i.resolveToQualified(document, symbol, name, word, func(string) bool { return false })
+}
+
+// ResolveToQualifiedIn is ResolveToQualified where functions and constants of the current
+// namespace which exist hide the global ones
+func (i ImportTable) ResolveToQualifiedIn(q *Query, document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
+	return i.resolveToQualified(document, symbol, name, word, func(fqn string) bool {
+		if _, ok := symbol.(*Function); ok {
+			return len(q.GetFunctions(fqn)) > 0
+		}
+		return len(q.GetConsts(fqn)) > 0 || len(q.GetDefines(fqn)) > 0
+	})
+}
+
+func (i ImportTable) resolveToQualified(document *Document, symbol Symbol, name TypeString, word string, exists func(fqn string) bool) (string, *protocol.TextEdit) {
+	fqn := name.GetFQN()
+	if name.GetOriginal() == "" || !IsFQN(fqn) {
 		return name.GetOriginal(), nil
 	}
-	wordNamespace := i.ResolveScopeNamespace(word)
-	nameNamespace := name.GetNamespace()
-	if wordNamespace == nameNamespace || name.GetOriginal() == "" {
-		return name.GetOriginal(), nil
+	if end := strings.LastIndex(word, "\\"); end >= 0 {
+		return i.resolveInScope(document, fqn, word[:end])
 	}
-	nameParts := name.GetParts()
-	firstPart, nameParts := nameParts[0], nameParts[1:]
-	if item, ok := i.classes[firstPart]; ok && strings.Index(word, item.name) == 0 {
-		if len(nameParts) > 0 {
-			return strings.Join(nameParts, "\\"), nil
+	aliases, isGlobalFallback := i.classes, false
+	switch symbol.(type) {
+	case *Function:
+		aliases, isGlobalFallback = i.functions, true
+	case *Const, *Define:
+		aliases, isGlobalFallback = i.constants, true
+	}
+	refersTo := func(written string) bool {
+		resolved, ok := i.resolve(NewTypeString(written), aliases)
+		if resolved == fqn {
+			return true
 		}
-		return firstPart, nil
+		return isGlobalFallback && !ok && "\\"+written == fqn && !exists(resolved)
 	}
-	// TODO: Defines do not have implicit namespace except
-	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
-	switch symbol.(type) {
-	case *Function, *Const, *Define:
-		// Functions, constants on \ can be used within any namespaces without the need of
-		// use statement
-		if nameNamespace == "\\" {
-			return name.GetOriginal(), nil
+	// Defines have their namespaces in their names
+	original := fqn[strings.LastIndex(fqn, "\\")+1:]
+	if refersTo(original) {
+		return original, nil
+	}
+	sortedAliases := []string{}
+	for alias, item := range aliases {
+		if "\\"+item.name == fqn {
+			sortedAliases = append(sortedAliases, alias)
 		}
 	}
-	// Aliases
-	for alias, item := range i.classes {
-		if "\\"+item.name == name.GetFQN() {
-			return alias, nil
+	if len(sortedAliases) > 0 {
+		sort.Strings(sortedAliases)
+		return sortedAliases[0], nil
+	}
+	if i.importOf(aliases, original) == nil {
+		if useEdit := getInsertUseContext(document, &i).GetUseEdit(name, symbol, ""); useEdit != nil {
+			return original, useEdit
 		}
 	}
-	// Anything below will require insert use
-	insertUse := GetInsertUseContext(document)
-	// Calculate what to inlude in insert use, because it is possible
-	// that the current word has a scope, e.g. TestNamespace1\Class.
-	// Therefore, it only needs `use TestNamespace1;`
-	currentWordScope, _ := GetScopeAndNameFromString(word)
-	if currentWordScope != "" && currentWordScope == nameNamespace {
-		// If this goes here we don't need to include `function` or `const` in use
-		// because we only insert the namespace
-		return name.GetOriginal(), insertUse.GetUseEdit(NewTypeString(nameNamespace), nil, "")
-	}
-	return name.GetOriginal(), insertUse.GetUseEdit(name, symbol, "")
+	return fqn, nil
+}
+
+// resolveInScope returns what is written after the scope to refer to the symbol
+func (i ImportTable) resolveInScope(document *Document, fqn string, scope string) (string, *protocol.TextEdit) {
+	resolved := scope
+	if scope != "" && !IsFQN(scope) {
+		resolved = i.ResolveScope(scope)
+	}
+	if strings.HasPrefix(fqn, resolved+"\\") {
+		return fqn[len(resolved)+1:], nil
+	}
+	// The scope might be a namespace which is not relative to the current one, importing its
+	// first part makes it so
+	if strings.HasPrefix(fqn, "\\"+scope+"\\") {
+		first := NewTypeString("\\" + strings.Split(scope, "\\")[0])
+		return fqn[len(scope)+2:], getInsertUseContext(document, &i).GetUseEdit(first, nil, "")
+	}
+	return fqn[strings.LastIndex(fqn, "\\")+1:], nil
+}
+
+// ResolveScope returns the fully qualified namespace of a scope which names are written in
+func (i ImportTable) ResolveScope(scope string) string {
+	const member = "\\_"
+	fqn, _ := i.resolve(NewTypeString(scope+member), i.classes)
+	return strings.TrimSuffix(fqn, member)
+}
+
+// ResolveWord returns the word to search for, i.e. the word with the namespace which its scope
+// refers to. A scope which is not imported might be any namespace
+func (i ImportTable) ResolveWord(word string) string {
+	end := strings.LastIndex(word, "\\")
+	if end <= 0 || IsFQN(word) {
+		return word
+	}
+	first := strings.Split(word, "\\")[0]
+	if strings.EqualFold(first, "namespace") || i.importOf(i.classes, first) != nil {
+		return i.ResolveScope(word[:end]) + word[end:]
+	}
+	return word
 }
 
 func (i ImportTable) GetNamespace() string {
@@ -198,26 +266,20 @@ func (i ImportTable) GetNamespace() string {
 	return i.namespace.Name
 }
 
-func (i ImportTable) ResolveScopeNamespace(word string) string {
-	name := NewTypeString(word)
-	name.SetNamespace(i.GetNamespace())
-	return name.GetNamespace()
-}
-
 func (i *ImportTable) useClass(name string) {
-	if item, ok := i.classes[name]; ok {
+	if item := i.importOf(i.classes, name); item != nil {
 		item.isUsed = true
 	}
 }
 
 func (i *ImportTable) useFunction(name string) {
-	if item, ok := i.functions[name]; ok {
+	if item := i.importOf(i.functions, name); item != nil {
 		item.isUsed = true
 	}
 }
 
 func (i *ImportTable) useConstant(name string) {
-	if item, ok := i.constants[name]; ok {
+	if item := i.importOf(i.constants, name); item != nil {
 		item.isUsed = true
 	}
 }
diff --git a/analysis/insertUse.go b/analysis/insertUse.go
index dc2c1af..2ac2408 100644
--- a/analysis/insertUse.go
+++ b/analysis/insertUse.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"bytes"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -11,40 +12,69 @@ import (
 type InsertUseContext struct {
 	document     *Document
 	firstInline  *phrase.Phrase
+	declare      *phrase.Phrase
 	namespaceDef *phrase.Phrase
 	lastUse      *phrase.Phrase
+	// The token which opens the body of namespaceDef
+	openBrace *lexer.Token
 }
 
+// GetInsertUseContext returns where to insert a use declaration for the last namespace of the
+// document
 func GetInsertUseContext(document *Document) InsertUseContext {
-	if document.insertUseContext != nil {
-		return *document.insertUseContext
-	}
-	insertUseCtx := InsertUseContext{
-		document:     document,
-		firstInline:  nil,
-		namespaceDef: nil,
-		lastUse:      nil,
-	}
-	traverser := util.NewTraverser(document.GetRootNode())
-	child := traverser.Advance()
-	for child != nil {
-		if p, ok := child.(*phrase.Phrase); ok {
-			switch p.Type {
-			case phrase.InlineText:
-				if insertUseCtx.firstInline == nil {
-					insertUseCtx.firstInline = p
-				}
-			case phrase.NamespaceDefinition:
+	return getInsertUseContext(document, document.currImportTable())
+}
+
+// getInsertUseContext returns where to insert a use declaration to be in the import table
+func getInsertUseContext(document *Document, importTable *ImportTable) InsertUseContext {
+	insertUseCtx := InsertUseContext{document: document}
+	isInside := importTable.namespace == nil
+	for _, child := range document.GetRootNode().Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok {
+			continue
+		}
+		switch p.Type {
+		case phrase.InlineText:
+			if insertUseCtx.firstInline == nil {
+				insertUseCtx.firstInline = p
+			}
+		case phrase.DeclareStatement:
+			// Nothing can be before the first statement if it is a declare
+			if isInside && insertUseCtx.declare == nil {
+				insertUseCtx.declare = p
+			}
+		case phrase.NamespaceDefinition:
+			firstToken := util.FirstToken(p)
+			isInside = firstToken != nil && document.positionAt(firstToken.Offset) == importTable.start
+			if isInside {
 				insertUseCtx.namespaceDef = p
-			case phrase.NamespaceUseDeclaration:
+				insertUseCtx.lookInside(p)
+			}
+		case phrase.NamespaceUseDeclaration:
+			if isInside {
 				insertUseCtx.lastUse = p
 			}
 		}
-		child = traverser.Advance()
 	}
 	return insertUseCtx
 }
 
+func (i *InsertUseContext) lookInside(namespaceDef *phrase.Phrase) {
+	for _, child := range namespaceDef.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.OpenBrace {
+			i.openBrace = t
+		}
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.StatementList {
+			for _, statement := range p.Children {
+				if p, ok := statement.(*phrase.Phrase); ok && p.Type == phrase.NamespaceUseDeclaration {
+					i.lastUse = p
+				}
+			}
+		}
+	}
+}
+
 func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
 	if i.lastUse != nil {
 		return i.lastUse
@@ -52,6 +82,9 @@ func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
 	if i.namespaceDef != nil {
 		return i.namespaceDef
 	}
+	if i.declare != nil {
+		return i.declare
+	}
 	if i.firstInline != nil {
 		return i.firstInline
 	}
@@ -63,6 +96,9 @@ func (i InsertUseContext) GetInsertPosition() (protocol.Position, bool) {
 	afterNode := i.GetInsertAfterNode()
 	if afterNode != nil {
 		lastToken := util.LastToken(afterNode)
+		if afterNode.Type == phrase.NamespaceDefinition && i.openBrace != nil {
+			lastToken = i.openBrace
+		}
 		return i.document.positionAt(lastToken.Offset + lastToken.Length), true
 	}
 	return protocol.Position{}, false
@@ -76,12 +112,20 @@ func (i InsertUseContext) GetUseEdit(typeString TypeString, symbol Symbol, alias
 		eol := i.document.detectedEOL
 		afterNode := i.GetInsertAfterNode()
 		text := eol
+		indentation := getIndentation(i.document, afterNode)
 
-		if afterNode.Type == phrase.NamespaceDefinition {
+		switch afterNode.Type {
+		case phrase.NamespaceDefinition:
+			if i.openBrace != nil {
+				indentation += "    "
+			} else {
+				text += eol
+			}
+		case phrase.DeclareStatement:
 			text += eol
 		}
 
-		text += getIndentation(i.document, afterNode) + "use "
+		text += indentation + "use "
 		switch symbol.(type) {
 		case *Function:
 			text += "function "
@@ -93,6 +137,10 @@ func (i InsertUseContext) GetUseEdit(typeString TypeString, symbol Symbol, alias
 			text += " as " + alias
 		}
 		text += ";"
+		if insertedPosition.Character == 0 {
+			// The open tag includes its line ending
+			text = text[len(eol):] + eol
+		}
 
 		return &protocol.TextEdit{
 			Range: protocol.Range{
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 6dc4d00..27ceede 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -246,25 +246,26 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 	completionList := &protocol.CompletionList{
 		IsIncomplete: true,
 	}
+	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
+	search := importTable.ResolveWord(word)
 	store := ctx.query.Store()
 	opts := baseSearchOptions()
-	classes, searchResult := store.SearchClasses(word, opts)
+	classes, searchResult := store.SearchClasses(search, opts)
 	completionList.IsIncomplete = !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, class, class.Name, word)
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
-	interfaces, searchResult := store.SearchInterfaces(word, opts)
+	interfaces, searchResult := store.SearchInterfaces(search, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
-	consts, searchResult := store.SearchConsts(word, opts)
+	consts, searchResult := store.SearchConsts(search, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, constant, constant.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -277,10 +278,10 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 			Detail:              getDetailFromTextEdit(constant.Name, textEdit),
 		})
 	}
-	defines, searchResult := store.SearchDefines(word, opts)
+	defines, searchResult := store.SearchDefines(search, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, define, define.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -294,10 +295,10 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 			Detail:              getDetailFromTextEdit(define.Name, textEdit),
 		})
 	}
-	functions, searchResult := store.SearchFunctions(word, opts)
+	functions, searchResult := store.SearchFunctions(search, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, function, function.Name, word)
 		insertText, textFormat, command := hasParamsInsertText(function, label)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
@@ -328,12 +329,13 @@ func classCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
 	}
+	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
+	search := importTable.ResolveWord(word)
 	store := ctx.query.Store()
-	classes, searchResult := store.SearchClasses(word, baseSearchOptions())
+	classes, searchResult := store.SearchClasses(search, baseSearchOptions())
 	completionList.IsIncomplete = !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		name, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		name, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, class, class.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -457,12 +459,13 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		IsIncomplete: true,
 	}
 	opts := baseSearchOptions()
+	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
+	search := importTable.ResolveWord(word)
 	store := ctx.query.Store()
-	classes, searchResult := store.SearchClasses(word, opts)
+	classes, searchResult := store.SearchClasses(search, opts)
 	completionList.IsIncomplete = !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, class, class.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -475,10 +478,10 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 			Detail:              getDetailFromTextEdit(class.Name, textEdit),
 		})
 	}
-	interfaces, searchResult := store.SearchInterfaces(word, opts)
+	interfaces, searchResult := store.SearchInterfaces(search, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, theInterface, theInterface.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -562,12 +565,13 @@ func interfaceCompletion(ctx *completionContext, word string) *protocol.Completi
 		IsIncomplete: false,
 	}
 	opts := baseSearchOptions()
+	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
+	search := importTable.ResolveWord(word)
 	store := ctx.query.Store()
-	interfaces, searchResult := store.SearchInterfaces(word, opts)
+	interfaces, searchResult := store.SearchInterfaces(search, opts)
 	completionList.IsIncomplete = !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, intf := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	return completionList
@@ -578,12 +582,13 @@ func traitCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 		IsIncomplete: false,
 	}
 	opts := baseSearchOptions()
+	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
+	search := importTable.ResolveWord(word)
 	store := ctx.query.Store()
-	traits, searchResult := store.SearchTraits(word, opts)
+	traits, searchResult := store.SearchTraits(search, opts)
 	completionList.IsIncomplete = !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, trait := range traits {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, trait, trait.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedIn(ctx.query, ctx.doc, trait, trait.Name, word)
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, label, textEdit))
 	}
 	return completionList
-- 
2.43.0


From 806928ffee4531094e8e1632d847feb0ab7c4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:53 +0000
Subject: [PATCH 46/57] fix: complete names where only their beginning is known

After an interface's extends nothing was offered, and names were completed from all of their
text instead of the text up to the position.
---
 internal/lsp/completion.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 27ceede..0212f1e 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -104,11 +104,9 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 			completionList = nameCompletion(completionCtx, symbol, word)
 		case phrase.ClassBaseClause:
 			completionList = classCompletion(completionCtx, word)
-		case phrase.InterfaceBaseClause:
-			completionList = interfaceCompletion(completionCtx, word)
 		case phrase.QualifiedNameList:
 			switch nodes.Parent().Type {
-			case phrase.ClassInterfaceClause:
+			case phrase.ClassInterfaceClause, phrase.InterfaceBaseClause:
 				completionList = interfaceCompletion(completionCtx, word)
 			case phrase.TraitUseClause:
 				completionList = traitCompletion(completionCtx, word)
@@ -176,13 +174,16 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 			}
 		}
 	}
+	// Names are completed up to the position, they might go on after it
 	switch s := symbol.(type) {
 	case *analysis.ClassTypeDesignator:
-		completionList = classCompletion(completionCtx, s.Name)
+		completionList = classCompletion(completionCtx, word)
 	case *analysis.ClassAccess:
-		completionList = typeCompletion(completionCtx, s.Name)
+		if s.Scope == nil {
+			completionList = typeCompletion(completionCtx, word)
+		}
 	case *analysis.TypeDeclaration:
-		completionList = typeCompletion(completionCtx, s.Name)
+		completionList = typeCompletion(completionCtx, word)
 	}
 	if completionList != nil {
 		completionList.Items = uniqueItems(completionList.Items)
-- 
2.43.0


From ec6033ffbad7a590c4bc71097562b111547163b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:11 +0000
Subject: [PATCH 47/57] fix: report deprecated types in return types, nullable
 and property types and extended interfaces

---
 analysis/diagnostic.go | 23 +++++++++++++++++++++++
 analysis/document.go   |  4 +++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/analysis/diagnostic.go b/analysis/diagnostic.go
index 0b1bb0f..6fc9aa7 100644
--- a/analysis/diagnostic.go
+++ b/analysis/diagnostic.go
@@ -325,9 +325,32 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 			}
 		}
 	}, nil)
+	for _, name := range doc.typeNames {
+		if t := deprecatedType(q, name.fqn); t != nil {
+			diagnostics = append(diagnostics, create(
+				name.location.Range,
+				deprecatedDescription(name.text+" is deprecated", t),
+			))
+		}
+	}
 	return diagnostics
 }
 
+// deprecatedType returns the tag of the class or the interface if it is deprecated
+func deprecatedType(q *Query, fqn string) *tag {
+	for _, c := range q.GetClasses(fqn) {
+		if c.deprecatedTag != nil {
+			return c.deprecatedTag
+		}
+	}
+	for _, i := range q.GetInterfaces(fqn) {
+		if i.deprecatedTag != nil {
+			return i.deprecatedTag
+		}
+	}
+	return nil
+}
+
 func deprecatedDescription(msg string, t *tag) string {
 	description := ""
 	if t.Name != "" {
diff --git a/analysis/document.go b/analysis/document.go
index 90580b3..b845692 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -109,6 +109,7 @@ func (s *Document) Load() {
 // type of a property, a nullable type, among the interfaces which an interface extends or of a
 // declared trait
 type typeName struct {
+	text     string
 	fqn      string
 	location protocol.Location
 }
@@ -132,6 +133,7 @@ func (s *Document) scanTypeNames(node *phrase.Phrase, inType bool) {
 		if inType {
 			location := s.GetNodeLocation(node)
 			s.typeNames = append(s.typeNames, typeName{
+				text:     s.GetNodeText(node),
 				fqn:      s.ImportTableAtPos(location.Range.Start).GetClassReferenceFQN(transformQualifiedName(node, s)),
 				location: location,
 			})
@@ -143,7 +145,7 @@ func (s *Document) scanTypeNames(node *phrase.Phrase, inType bool) {
 			name := NewTypeString(s.getTokenText(t))
 			location := s.GetNodeLocation(t)
 			name.SetNamespace(s.ImportTableAtPos(location.Range.Start).GetNamespace())
-			s.typeNames = append(s.typeNames, typeName{fqn: name.GetFQN(), location: location})
+			s.typeNames = append(s.typeNames, typeName{text: s.getTokenText(t), fqn: name.GetFQN(), location: location})
 		}
 		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Question && node.Type == phrase.TypeDeclaration {
 			inType = true
-- 
2.43.0


From 41808d2e17c2603b979a3d73654202bd9d400c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:12 +0000
Subject: [PATCH 48/57] fix: report deprecated members which are inherited or
 come from traits

---
 analysis/diagnostic.go | 115 ++++++++++++++---------------------------
 1 file changed, 39 insertions(+), 76 deletions(-)

diff --git a/analysis/diagnostic.go b/analysis/diagnostic.go
index 6fc9aa7..06f8563 100644
--- a/analysis/diagnostic.go
+++ b/analysis/diagnostic.go
@@ -210,13 +210,21 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		case *ScopedConstantAccess:
+			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LScopedConstant:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, c := range q.GetClassConsts(scopeType.GetFQN(), v.Name) {
-					if c.deprecatedTag != nil {
+				ccs := EmptyInheritedClassConst()
+				for _, class := range q.GetClasses(scopeType.GetFQN()) {
+					ccs.Merge(q.GetClassClassConsts(class, v.Name, ccs.SearchedFQNs))
+				}
+				for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+					ccs.Merge(q.GetInterfaceClassConsts(theInterface, v.Name, ccs.SearchedFQNs))
+				}
+				for _, c := range ccs.ReduceStatic(currentClass, v) {
+					if c.Const.deprecatedTag != nil {
 						diagnostics = append(diagnostics, create(
 							v.Location.Range,
-							deprecatedDescription(c.ReferenceFQN()+" is deprecated", c.deprecatedTag),
+							deprecatedDescription(c.Const.ReferenceFQN()+" is deprecated", c.Const.deprecatedTag),
 						))
 						break LScopedConstant
 					}
@@ -226,18 +234,13 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LScopedMethod:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, class := range q.GetClasses(scopeType.GetFQN()) {
-					for _, m := range q.GetClassMethods(class, v.Name, nil).ReduceStatic(currentClass, v) {
-						if m.Method == nil {
-							continue
-						}
-						if m.Method.deprecatedTag != nil {
-							diagnostics = append(diagnostics, create(
-								v.Location.Range,
-								deprecatedDescription(m.Method.ReferenceFQN()+" is deprecated", m.Method.deprecatedTag),
-							))
-							break LScopedMethod
-						}
+				for _, m := range q.GetTypeMethods(scopeType.GetFQN(), v.Name).ReduceStatic(currentClass, v) {
+					if m.Method != nil && m.Method.deprecatedTag != nil {
+						diagnostics = append(diagnostics, create(
+							v.Location.Range,
+							deprecatedDescription(m.Method.ReferenceFQN()+" is deprecated", m.Method.deprecatedTag),
+						))
+						break LScopedMethod
 					}
 				}
 			}
@@ -245,15 +248,13 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LScopedProp:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, class := range q.GetClasses(scopeType.GetFQN()) {
-					for _, p := range q.GetClassProps(class, v.Name, nil).ReduceStatic(currentClass, v) {
-						if p.Prop.deprecatedTag != nil {
-							diagnostics = append(diagnostics, create(
-								v.Location.Range,
-								deprecatedDescription(p.Prop.ReferenceFQN()+" is deprecated", p.Prop.deprecatedTag),
-							))
-							break LScopedProp
-						}
+				for _, p := range q.GetTypeProps(scopeType.GetFQN(), v.Name).ReduceStatic(currentClass, v) {
+					if p.Prop.deprecatedTag != nil {
+						diagnostics = append(diagnostics, create(
+							v.Location.Range,
+							deprecatedDescription(p.Prop.ReferenceFQN()+" is deprecated", p.Prop.deprecatedTag),
+						))
+						break LScopedProp
 					}
 				}
 			}
@@ -261,15 +262,13 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LProp:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, class := range q.GetClasses(scopeType.GetFQN()) {
-					for _, p := range q.GetClassProps(class, "$"+v.Name, nil).ReduceAccess(currentClass, v) {
-						if p.Prop.deprecatedTag != nil {
-							diagnostics = append(diagnostics, create(
-								v.Location.Range,
-								deprecatedDescription(p.Prop.ReferenceFQN()+" is deprecated", p.Prop.deprecatedTag),
-							))
-							break LProp
-						}
+				for _, p := range q.GetTypeProps(scopeType.GetFQN(), "$"+v.Name).ReduceAccess(currentClass, v) {
+					if p.Prop.deprecatedTag != nil {
+						diagnostics = append(diagnostics, create(
+							v.Location.Range,
+							deprecatedDescription(p.Prop.ReferenceFQN()+" is deprecated", p.Prop.deprecatedTag),
+						))
+						break LProp
 					}
 				}
 			}
@@ -277,49 +276,13 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LMethod:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, class := range q.GetClasses(scopeType.GetFQN()) {
-					for _, m := range q.GetClassMethods(class, v.Name, nil).ReduceAccess(currentClass, v) {
-						method := m.Method
-						if method == nil {
-							continue
-						}
-						if method.deprecatedTag != nil {
-							diagnostics = append(diagnostics, create(
-								v.Location.Range,
-								deprecatedDescription(method.ReferenceFQN()+" is deprecated", method.deprecatedTag),
-							))
-							break LMethod
-						}
-					}
-				}
-				for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
-					for _, m := range q.GetInterfaceMethods(theInterface, v.Name, nil).ReduceAccess(currentClass, v) {
-						method := m.Method
-						if method == nil {
-							continue
-						}
-						if method.deprecatedTag != nil {
-							diagnostics = append(diagnostics, create(
-								v.Location.Range,
-								deprecatedDescription(method.ReferenceFQN()+" is deprecated", method.deprecatedTag),
-							))
-							break LMethod
-						}
-					}
-				}
-				for _, trait := range q.GetTraits(scopeType.GetFQN()) {
-					for _, m := range q.GetTraitMethods(trait, v.Name).ReduceAccess(currentClass, v) {
-						method := m.Method
-						if method == nil {
-							continue
-						}
-						if method.deprecatedTag != nil {
-							diagnostics = append(diagnostics, create(
-								v.Location.Range,
-								deprecatedDescription(method.ReferenceFQN()+" is deprecated", method.deprecatedTag),
-							))
-							break LMethod
-						}
+				for _, m := range q.GetTypeMethods(scopeType.GetFQN(), v.Name).ReduceAccess(currentClass, v) {
+					if m.Method != nil && m.Method.deprecatedTag != nil {
+						diagnostics = append(diagnostics, create(
+							v.Location.Range,
+							deprecatedDescription(m.Method.ReferenceFQN()+" is deprecated", m.Method.deprecatedTag),
+						))
+						break LMethod
 					}
 				}
 			}
-- 
2.43.0


From 27f30d9fb4e26932ba06410c97b0149023a10b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:10 +0000
Subject: [PATCH 49/57] fix: places next to characters of several bytes are
 where they are

---
 analysis/parse.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/analysis/parse.go b/analysis/parse.go
index a13cd07..ab46087 100644
--- a/analysis/parse.go
+++ b/analysis/parse.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"log"
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/parser"
@@ -16,7 +17,7 @@ var /* const */ tagAtEndRegex = regexp.MustCompile(`@[^ \t\r\n]*$`)
 // which are being typed are among them, so it is given a text which it can parse and whose
 // tokens are at the same offsets
 func parse(text []byte) *phrase.Phrase {
-	readable := blankControls(text)
+	readable := plain(text)
 	room := 0
 	if tagAtEndRegex.Match(readable) {
 		// The lexer looks for white space after the tag of a doc comment
@@ -60,24 +61,32 @@ func tryParse(text []byte, room int) (rootNode *phrase.Phrase) {
 	return rootNode
 }
 
-// blankControls replaces control characters by spaces, the lexer does not end on some of those
-// which are in a doc comment
-func blankControls(text []byte) []byte {
+// plain replaces control characters by spaces, the lexer does not end on some of those which are in
+// a doc comment, and the bytes of other characters than those of ASCII by letters, which those are
+// to the lexer: it takes tokens next to a character of several bytes to be where they are not
+func plain(text []byte) []byte {
 	isControl := func(c byte) bool {
 		return c < ' ' && c != '\t' && c != '\r' && c != '\n' || c == 0x7f
 	}
-	for _, c := range text {
+	var replaced []byte
+	for i, c := range text {
+		if !isControl(c) && c < utf8.RuneSelf {
+			continue
+		}
+		if replaced == nil {
+			replaced = append([]byte{}, text...)
+		}
 		if isControl(c) {
-			blanked := append([]byte{}, text...)
-			for i, c := range blanked {
-				if isControl(c) {
-					blanked[i] = ' '
-				}
-			}
-			return blanked
+			replaced[i] = ' '
+		} else {
+			// No keyword has this letter
+			replaced[i] = 'z'
 		}
 	}
-	return text
+	if replaced == nil {
+		return text
+	}
+	return replaced
 }
 
 // unreadable finds the tokens on which the parser does not end: the separators of the second
-- 
2.43.0


From 8f4897d949481d078c5d609e40c2302bf75267b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:11 +0000
Subject: [PATCH 50/57] fix: find the definitions of interfaces and traits
 before ::

---
 internal/lsp/definition.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index beec977..6adcc4a 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -43,8 +43,10 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 		}
 	case *analysis.ClassAccess:
 		for _, typeString := range v.Type.Resolve() {
-			for _, theClass := range q.GetClasses(document.ImportTableAtPos(pos).GetClassReferenceFQN(typeString)) {
-				locations = append(locations, theClass.GetLocation())
+			fqn := document.ImportTableAtPos(pos).GetClassReferenceFQN(typeString)
+			locations = append(locations, typeLocations(q, fqn)...)
+			for _, trait := range q.GetTraits(fqn) {
+				locations = append(locations, trait.GetLocation())
 			}
 		}
 	case *analysis.InterfaceAccess:
-- 
2.43.0


From fb3335eb2acef5ba4be34973e76a02f6296bd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:12 +0000
Subject: [PATCH 51/57] fix: references of properties which are declared with a
 value

---
 internal/lsp/reference.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index a041243..a280bec 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -88,9 +88,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 			fallbackHandler()
 		}
 	case phrase.PropertyElement:
-		ref := "."
-		ref += document.GetNodeText(&parent)
-		results = append(results, store.GetReferences(ref)...)
+		// The element has its value as well
+		nameToken := nodes.Token()
+		results = append(results, store.GetReferences("."+document.GetNodeText(&nameToken))...)
 	case phrase.ClassDeclarationHeader,
 		phrase.InterfaceDeclarationHeader,
 		phrase.TraitDeclarationHeader:
-- 
2.43.0


From 191c2a2a3c765a4d38be5c9399d937cc35b031ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:13 +0000
Subject: [PATCH 52/57] fix: references of declarations in the second and later
 namespaces of a file

---
 internal/lsp/reference.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index a280bec..5a4c2e3 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -96,13 +96,13 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 		phrase.TraitDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(&nameToken).Start).GetNamespace())
 		ref := name.GetFQN()
 		results = append(results, store.GetReferences(ref)...)
 	case phrase.FunctionDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(&nameToken).Start).GetNamespace())
 		results = append(results, store.GetReferences(name.GetFQN()+"()")...)
 	default:
 		fallbackHandler()
-- 
2.43.0


From 77e428084dfa8421f2191b365a1e06dbf335f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:39 +0000
Subject: [PATCH 53/57] fix: words before an underscore are found when they are
 one letter long or end in a multi-byte letter

---
 analysis/wordtokeniser/casing.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/analysis/wordtokeniser/casing.go b/analysis/wordtokeniser/casing.go
index ae7e70b..a73fafc 100644
--- a/analysis/wordtokeniser/casing.go
+++ b/analysis/wordtokeniser/casing.go
@@ -15,7 +15,6 @@ func casing(name string) []string {
 	lastClass := 0
 	start := 0
 	prev := 0
-	lastTokenIndex := 0
 	markNextAsStart := false
 	appendWord := func(word string) {
 		if start == 0 {
@@ -25,15 +24,14 @@ func casing(name string) []string {
 	}
 	for i, r := range name {
 		if isNotToken(r) {
-			if start < lastTokenIndex {
-				words = append(words, name[start:lastTokenIndex+1])
+			if start < i {
+				words = append(words, name[start:i])
 			}
 			lastClass = 0
 			start = i + 1
 			prev = i + 1
 			continue
 		}
-		lastTokenIndex = i
 		if markNextAsStart {
 			start = i
 			markNextAsStart = false
-- 
2.43.0


From 2dacac0b560fd4fd982c359c457e0cfb26956795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:52 +0000
Subject: [PATCH 54/57] fix: members after a comment are found

---
 analysis/memberAccess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 0d2114d..174d233 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -10,7 +10,7 @@ import (
 func readMemberName(a analyser, document *Document, traverser *util.Traverser) (string, protocol.Location) {
 	next := traverser.Peek()
 	location := protocol.Location{}
-	for nextToken, ok := next.(*lexer.Token); ok && (nextToken.Type == lexer.Whitespace || nextToken.Type == lexer.Arrow); {
+	for nextToken, ok := next.(*lexer.Token); ok && (nextToken.Type == lexer.Whitespace || nextToken.Type == lexer.Comment || nextToken.Type == lexer.Arrow); {
 		if nextToken.Type == lexer.Arrow {
 			location.Range.Start = document.positionAt(nextToken.Offset + nextToken.Length)
 			location.Range.End = location.Range.Start
-- 
2.43.0


From c70b991c8012f11a3e2c1be8399158499c248a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:59 +0000
Subject: [PATCH 55/57] fix: signatures at the end of an argument, before a
 parenthesis and in a call which is not finished

---
 analysis/document.go      | 26 +++++++++++++++++++++++++-
 internal/lsp/signature.go |  5 +++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index b845692..7408787 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -609,11 +609,19 @@ func (s *Document) WordAtPos(pos protocol.Position) string {
 func (s *Document) ArgumentListAndFunctionCallAt(pos protocol.Position) (*ArgumentList, HasParamsResolvable) {
 	var argumentList *ArgumentList = nil
 	var hasParamsResolvable HasParamsResolvable = nil
+	document := s
+	offset := s.OffsetAtPosition(pos)
+	// where what is written before the position ends
+	lastOffset := len(bytes.TrimRight(s.GetText()[:offset], " \t\r\n"))
+	lastPos := s.positionAt(lastOffset)
 	t := newTraverser()
 	t.traverseDocument(s, func(t *traverser, s Symbol, spine []Symbol) {
 		relativePos := protocol.IsInRange(pos, s.GetLocation().Range)
+		if relativePos > 0 && protocol.ComparePos(s.GetLocation().Range.End, lastPos) >= 0 {
+			relativePos = 0
+		}
 		if relativePos == 0 {
-			if args, ok := s.(*ArgumentList); ok {
+			if args, ok := s.(*ArgumentList); ok && document.isInArguments(args, pos) {
 				if len(spine) >= 3 {
 					if _, ok := spine[len(spine)-2].(*Class); ok {
 						if classTypeDesignator, ok2 := spine[len(spine)-3].(*ClassTypeDesignator); ok2 {
@@ -638,6 +646,22 @@ func (s *Document) ArgumentListAndFunctionCallAt(pos protocol.Position) (*Argume
 	return argumentList, hasParamsResolvable
 }
 
+// isInArguments returns whether the position is between the parentheses of the arguments,
+// the closing one of which may be yet to be written
+func (s *Document) isInArguments(args *ArgumentList, pos protocol.Position) bool {
+	theRange := args.GetLocation().Range
+	if protocol.ComparePos(pos, theRange.Start) <= 0 {
+		return false
+	}
+	if protocol.ComparePos(pos, theRange.End) < 0 {
+		return true
+	}
+	if ranges := args.GetArgumentRanges(); len(ranges) > 0 && ranges[len(ranges)-1].End == theRange.End {
+		return true
+	}
+	return !bytes.HasSuffix(s.GetText()[:s.OffsetAtPosition(theRange.End)], []byte(")"))
+}
+
 // CloneForMutate returns a new document with resetted state
 func (s *Document) CloneForMutate() *Document {
 	return &Document{
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index 5c9ff7c..29a263d 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -45,8 +45,9 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 	}
 
 	ranges := argumentList.GetRanges()
-	signatureHelp.ActiveParameter = sort.Search(len(ranges), func(i int) bool {
-		return protocol.IsInRange(pos, ranges[i]) <= 0
+	// The position before a comma is still in the argument which ends there
+	signatureHelp.ActiveParameter = sort.Search(len(ranges)-1, func(i int) bool {
+		return protocol.ComparePos(pos, ranges[i].End) <= 0
 	})
 
 	return signatureHelp, nil
-- 
2.43.0


From 6614049a48c5dea27df8c3ca2371e0a1294a077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:32 +0000
Subject: [PATCH 56/57] fix: new self and new parent create the class they are
 in and its parent

---
 analysis/classTypeDesignator.go | 17 +++++++++++++++--
 analysis/diagnostic.go          |  3 +++
 analysis/store.go               |  3 +++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/analysis/classTypeDesignator.go b/analysis/classTypeDesignator.go
index be9abf1..1abadb2 100644
--- a/analysis/classTypeDesignator.go
+++ b/analysis/classTypeDesignator.go
@@ -48,13 +48,16 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
 			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
+				if name := document.getPhraseText(p); IsNameRelative(name) || IsNameParent(name) {
+					s.setRelative(document, name)
+					break
+				}
 				typeString := transformQualifiedName(p, document)
 				typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 				s.Name = typeString.GetOriginal()
 				s.Type.add(typeString)
 			case phrase.RelativeScope:
-				relativeScope := newRelativeScope(document, s.Location)
-				s.Type.merge(relativeScope.Types)
+				s.setRelative(document, document.getPhraseText(p))
 			default:
 				scanOperand(a, document, p)
 			}
@@ -63,6 +66,16 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 	}
 }
 
+// setRelative makes it a designator of the class it is in, or its parent
+func (s *ClassTypeDesignator) setRelative(document *Document, name string) {
+	s.Name = name
+	scope := newRelativeScope(document, s.Location)
+	if IsNameParent(name) {
+		scope = newParentScope(document, s.Location)
+	}
+	s.Type.merge(scope.Types)
+}
+
 func (s *ClassTypeDesignator) referenceClass(class *Class) {
 	s.Name = class.Name.GetOriginal()
 	s.Type.add(class.Name)
diff --git a/analysis/diagnostic.go b/analysis/diagnostic.go
index 06f8563..d1e7696 100644
--- a/analysis/diagnostic.go
+++ b/analysis/diagnostic.go
@@ -109,6 +109,9 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		case *ClassTypeDesignator:
+			if IsNameRelative(v.Name) {
+				return
+			}
 			v.Resolve(ctx)
 		LClassTypeDesignator:
 			for _, t := range v.GetTypes().Resolve() {
diff --git a/analysis/store.go b/analysis/store.go
index 159bbb7..0dc3e07 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1310,6 +1310,9 @@ func SymToRefs(document *Document, sym HasTypes) []string {
 		if c, ok := sym.(*ClassAccess); ok && IsNameRelative(c.Name) {
 			break
 		}
+		if c, ok := sym.(*ClassTypeDesignator); ok && IsNameRelative(c.Name) {
+			break
+		}
 		for _, t := range sym.GetTypes().Resolve() {
 			refs = append(refs, t.GetFQN())
 		}
-- 
2.43.0


From 3e018e2e75180708cc883654bb06e1283690dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:38 +0000
Subject: [PATCH 57/57] fix: the signature of a call in the arguments of an
 anonymous class is its own

---
 analysis/document.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/document.go b/analysis/document.go
index 7408787..0f771c1 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -622,6 +622,7 @@ func (s *Document) ArgumentListAndFunctionCallAt(pos protocol.Position) (*Argume
 		}
 		if relativePos == 0 {
 			if args, ok := s.(*ArgumentList); ok && document.isInArguments(args, pos) {
+				hasParamsResolvable = nil
 				if len(spine) >= 3 {
 					if _, ok := spine[len(spine)-2].(*Class); ok {
 						if classTypeDesignator, ok2 := spine[len(spine)-3].(*ClassTypeDesignator); ok2 {
-- 
2.43.0

