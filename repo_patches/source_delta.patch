From 9b714b5d789d1460bc6a98402830e4314209166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:12 +0000
Subject: [PATCH 01/72] fix: don't panic when an upstream server sends an empty
 nickname

A server can send messages with an empty source nickname, or an empty
nickname parameter. This crashed the user's goroutine, or the whole
process when it happened during registration.
---
 upstream.go | 2 +-
 user.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index f1e02ed..2856186 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2429,7 +2429,7 @@ func (uc *upstreamConn) getCachedWHO(mask, fields string) (l []*upstreamUser, ok
 
 func (uc *upstreamConn) cacheUserInfo(nick string, info *upstreamUser) {
 	if nick == "" {
-		panic("cacheUserInfo called with empty nickname")
+		return // message without a source nickname, nothing to cache
 	}
 
 	uu := uc.users.Get(nick)
diff --git a/user.go b/user.go
index 44a16f8..bdd32b4 100644
--- a/user.go
+++ b/user.go
@@ -458,7 +458,7 @@ func (net *network) isHighlight(msg *irc.Message) bool {
 	}
 
 	// TODO: use case-mapping aware comparison here
-	return msg.Prefix.Name != nick && isHighlight(text, nick)
+	return nick != "" && msg.Prefix.Name != nick && isHighlight(text, nick)
 }
 
 func (net *network) detachedMessageNeedsRelay(ch *database.Channel, msg *irc.Message) bool {
-- 
2.43.0


From 53c12dcd724212facc51bfae2488ae32e85db542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:03 +0000
Subject: [PATCH 02/72] fix: avoid deadlock when broadcasting messages

The user goroutine sent an event to its own channel, with the global
server lock held. When the channel was full, this blocked the whole
server forever.
---
 downstream.go |  4 +++-
 server.go     |  8 +++++++-
 service.go    |  7 +++----
 user.go       | 22 ++++++++++++++++++++++
 4 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/downstream.go b/downstream.go
index d3c3723..9e21d87 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2425,7 +2425,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  params,
 				}
 				dc.srv.forEachUser(func(u *user) {
-					u.events <- eventBroadcast{broadcastMsg}
+					if err := u.broadcast(ctx, dc.user, broadcastMsg); err != nil {
+						dc.logger.Printf("failed to broadcast message to user %q: %v", u.Username, err)
+					}
 				})
 				continue
 			}
diff --git a/server.go b/server.go
index 1df3dc6..4181f1e 100644
--- a/server.go
+++ b/server.go
@@ -418,11 +418,17 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 }
 
 func (s *Server) forEachUser(f func(*user)) {
+	// Don't call f with the lock held: f may block
 	s.lock.Lock()
+	users := make([]*user, 0, len(s.users))
 	for _, u := range s.users {
-		f(u)
+		users = append(users, u)
 	}
 	s.lock.Unlock()
+
+	for _, u := range users {
+		f(u)
+	}
 }
 
 func (s *Server) getUser(name string) *user {
diff --git a/service.go b/service.go
index 0b8b0cd..4e3718d 100644
--- a/service.go
+++ b/service.go
@@ -1603,10 +1603,9 @@ func handleServiceServerNotice(ctx *serviceContext, params []string) error {
 	total := 0
 	ctx.srv.forEachUser(func(u *user) {
 		total++
-		select {
-		case <-ctx.Done():
-			err = ctx.Err()
-		case u.events <- eventBroadcast{broadcastMsg}:
+		if broadcastErr := u.broadcast(ctx, ctx.user, broadcastMsg); broadcastErr != nil {
+			err = broadcastErr
+		} else {
 			sent++
 		}
 	})
diff --git a/user.go b/user.go
index bdd32b4..4a17ab3 100644
--- a/user.go
+++ b/user.go
@@ -1266,6 +1266,28 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 	return nil
 }
 
+// broadcast sends a message to all downstream connections of the user. sender
+// is the user whose goroutine is calling this function, if any.
+func (u *user) broadcast(ctx context.Context, sender *user, msg *irc.Message) error {
+	if u == sender {
+		// Sending an event to ourselves would block forever if the events
+		// channel is full
+		for _, dc := range u.downstreamConns {
+			dc.SendMessage(ctx, msg)
+		}
+		return nil
+	}
+
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-u.done:
+		return nil // already stopped
+	case u.events <- eventBroadcast{msg}:
+		return nil
+	}
+}
+
 func (u *user) stop(ctx context.Context) error {
 	select {
 	case <-u.done:
-- 
2.43.0


From 11bdfdca8ab5e926b5f44e7b900f28ee44498e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:06 +0000
Subject: [PATCH 03/72] fix: don't hold the server lock while stopping users on
 shutdown

User goroutines take the server lock when they exit and when handling
some commands, so shutdown could deadlock if a user's event channel was
full.
---
 server.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index 4181f1e..8ace067 100644
--- a/server.go
+++ b/server.go
@@ -388,11 +388,16 @@ func (s *Server) Shutdown() {
 			s.Logger.Printf("failed to stop listener: %v", err)
 		}
 	}
-	for _, u := range s.users {
-		u.events <- eventStop{}
-	}
 	s.lock.Unlock()
 
+	s.forEachUser(func(u *user) {
+		select {
+		case <-u.done:
+			// already stopped
+		case u.events <- eventStop{}:
+		}
+	})
+
 	s.Logger.Printf("waiting for users to finish")
 	s.stopWG.Wait()
 
-- 
2.43.0


From 04aeaeaa653ce2fbd2f51501173fc0daa83293bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:31 +0000
Subject: [PATCH 04/72] fix: don't block user goroutines forever in user run
 and user update

When the admin requesting a "user run" gave up, the target user's
goroutine blocked forever while sending back the command output. When
the target user of a "user update" was stopped or was itself waiting
for the requester, the requester's goroutine blocked forever.
---
 service.go | 10 ++++++++--
 user.go    |  5 ++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/service.go b/service.go
index 4e3718d..c2212cf 100644
--- a/service.go
+++ b/service.go
@@ -1126,8 +1126,13 @@ func handleUserUpdate(ctx *serviceContext, params []string) error {
 		case u.events <- event:
 		}
 		// TODO: send context to the other side
-		if err := <-done; err != nil {
-			return err
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case err := <-done:
+			if err != nil {
+				return err
+			}
 		}
 
 		ctx.print(fmt.Sprintf("updated user %q", username))
@@ -1247,6 +1252,7 @@ func handleUserRun(ctx *serviceContext, params []string) error {
 
 	msgCh := make(chan userRunMsg, 1)
 	ev := eventUserRun{
+		ctx:    ctx,
 		params: params,
 		ch:     msgCh,
 	}
diff --git a/user.go b/user.go
index 4a17ab3..2d2303b 100644
--- a/user.go
+++ b/user.go
@@ -88,6 +88,7 @@ type eventTryRegainNick struct {
 }
 
 type eventUserRun struct {
+	ctx    context.Context // canceled when the requester stops reading ch
 	params []string
 	ch     chan userRunMsg
 }
@@ -847,7 +848,7 @@ func (u *user) run() {
 		case eventTryRegainNick:
 			e.uc.tryRegainNick(e.nick)
 		case eventUserRun:
-			ctx := context.TODO()
+			ctx := e.ctx
 			err := handleServiceCommand(&serviceContext{
 				Context: ctx,
 				user:    u,
@@ -862,8 +863,6 @@ func (u *user) run() {
 				admin: true,
 				print: func(text string) {
 					// Avoid blocking on e.print in case our context is canceled.
-					// This is a no-op right now because we use context.TODO(),
-					// but might be useful later when we add timeouts.
 					select {
 					case <-ctx.Done():
 					case e.ch <- userRunMsg{message: text}:
-- 
2.43.0


From 93d2a4c34f01ae79abadb3f2a4f7045c4c75f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:26 +0000
Subject: [PATCH 05/72] fix: close downstream connections rejected after
 authentication

Connections of disabled users, or whose network couldn't be loaded, were
left open without being fully set up. The next message sent by the
client resulted in a nil pointer dereference in the user goroutine.
---
 user.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/user.go b/user.go
index 2d2303b..e20a1a3 100644
--- a/user.go
+++ b/user.go
@@ -563,6 +563,17 @@ func newUser(srv *Server, record *database.User) *user {
 	}
 }
 
+// hasDownstream checks whether a downstream connection has been successfully
+// registered and hasn't been disconnected.
+func (u *user) hasDownstream(dc *downstreamConn) bool {
+	for _, c := range u.downstreamConns {
+		if c == dc {
+			return true
+		}
+	}
+	return false
+}
+
 func (u *user) forEachUpstream(f func(uc *upstreamConn)) {
 	for _, network := range u.networks {
 		if network.conn == nil {
@@ -741,7 +752,7 @@ func (u *user) run() {
 					Command: "ERROR",
 					Params:  []string{"This bouncer account is disabled"},
 				})
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -757,7 +768,7 @@ func (u *user) run() {
 					})
 				}
 				dc.logger.Printf("failed to handle new registered connection: %v", err)
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -804,7 +815,7 @@ func (u *user) run() {
 			}
 		case eventDownstreamMessage:
 			msg, dc := e.msg, e.dc
-			if dc.isClosed() {
+			if dc.isClosed() || !u.hasDownstream(dc) {
 				dc.logger.Printf("ignoring message on closed connection: %v", msg)
 				break
 			}
-- 
2.43.0


From 45a247b13a891dfef130f37bcf913eb6761e8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:30 +0000
Subject: [PATCH 06/72] fix: don't create users while shutting down

A user created after shutdown has been requested never stopped, so the
shutdown never finished.
---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index 8ace067..eb1eae3 100644
--- a/server.go
+++ b/server.go
@@ -410,6 +410,10 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
+	if s.shutdown {
+		// The user wouldn't be stopped
+		return nil, fmt.Errorf("server is shutting down")
+	}
 	if _, ok := s.users[user.Username]; ok {
 		return nil, fmt.Errorf("user %q already exists", user.Username)
 	}
-- 
2.43.0


From 3b5fab1880508d4e8eca7044d5182211c99f7d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:42 +0000
Subject: [PATCH 07/72] fix: don't start serving a listener after shutdown

A listener registered after shutdown has been requested was never
closed, so the shutdown never finished.
---
 server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index eb1eae3..a97ae4e 100644
--- a/server.go
+++ b/server.go
@@ -649,10 +649,13 @@ func (s *Server) Serve(ln net.Listener, handler func(ircConn)) error {
 	}
 
 	s.lock.Lock()
+	if s.shutdown {
+		s.lock.Unlock()
+		return ln.Close()
+	}
 	s.listeners[ln] = struct{}{}
-	s.lock.Unlock()
-
 	s.stopWG.Add(1)
+	s.lock.Unlock()
 
 	defer func() {
 		s.lock.Lock()
-- 
2.43.0


From 5889606d59d3ea47877327cb17ff7dafd4ac0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:22 +0000
Subject: [PATCH 08/72] fix: close client connections when their user is
 stopped

Clients whose connection was being set up while the user was stopped (or
deleted) were left hanging forever.
---
 downstream.go |  8 ++++++--
 server.go     | 25 ++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index 9e21d87..fb29b01 100644
--- a/downstream.go
+++ b/downstream.go
@@ -466,7 +466,7 @@ func (dc *downstreamConn) ReadMessage() (*irc.Message, error) {
 	return msg, nil
 }
 
-func (dc *downstreamConn) readMessages(ch chan<- event) error {
+func (dc *downstreamConn) readMessages(user *user) error {
 	for {
 		msg, err := dc.ReadMessage()
 		if errors.Is(err, io.EOF) {
@@ -475,7 +475,11 @@ func (dc *downstreamConn) readMessages(ch chan<- event) error {
 			return fmt.Errorf("failed to read IRC command: %v", err)
 		}
 
-		ch <- eventDownstreamMessage{msg, dc}
+		select {
+		case user.events <- eventDownstreamMessage{msg, dc}:
+		case <-user.done:
+			return nil
+		}
 	}
 
 	return nil
diff --git a/server.go b/server.go
index a97ae4e..9524a77 100644
--- a/server.go
+++ b/server.go
@@ -519,11 +519,30 @@ func (s *Server) Handle(ic ircConn) {
 		return
 	}
 
-	user.events <- eventDownstreamConnected{dc}
-	if err := dc.readMessages(user.events); err != nil {
+	// The user may be stopped at any time, and doesn't process events anymore
+	// when that's the case
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-user.done:
+			dc.Close()
+		case <-done:
+		}
+	}()
+
+	select {
+	case user.events <- eventDownstreamConnected{dc}:
+	case <-user.done:
+		return
+	}
+	if err := dc.readMessages(user); err != nil {
 		dc.logger.Printf("%v", err)
 	}
-	user.events <- eventDownstreamDisconnected{dc}
+	select {
+	case user.events <- eventDownstreamDisconnected{dc}:
+	case <-user.done:
+	}
 }
 
 func (s *Server) getOrCreateUser(ctx context.Context, username string) (*user, error) {
-- 
2.43.0


From d36f1a70bd9348534baa4a26aa050a8221843e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:26 +0000
Subject: [PATCH 09/72] fix: don't let callers alter messages in the memory
 store

The backlog sent to a client had the tag of a batch of another connection
when it had been sent to another client before.
---
 msgstore/memory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgstore/memory.go b/msgstore/memory.go
index b37b074..099ee70 100644
--- a/msgstore/memory.go
+++ b/msgstore/memory.go
@@ -164,7 +164,8 @@ func (rb *messageRingBuffer) LoadLatestSeq(seq uint64, limit int) ([]*irc.Messag
 	l := make([]*irc.Message, int(diff))
 	for i := 0; i < int(diff); i++ {
 		j := int((rb.cur - diff + uint64(i)) % rb.cap())
-		l[i] = rb.buf[j]
+		// Callers are allowed to alter the messages
+		l[i] = rb.buf[j].Copy()
 	}
 
 	return l, nil
-- 
2.43.0


From a0a65f1bbe2bd4763fb673812cebec77e9a534a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:29 +0000
Subject: [PATCH 10/72] fix: don't leak tags of upstream messages and labels to
 clients

SendMessageLabeled alters the tags, which were shared between all targets
of a message and with the echo sent to clients. A message sent to oneself
on a connection without network was sent back with its label.
---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index fb29b01..f17061f 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2438,7 +2438,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 
 			if dc.network == nil && dc.casemap(name) == dc.nickCM {
 				dc.SendMessage(ctx, &irc.Message{
-					Tags:    msg.Tags.Copy(),
+					Tags:    tags.Copy(),
 					Prefix:  dc.prefix(),
 					Command: msg.Command,
 					Params:  params,
@@ -2490,7 +2490,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
-				Tags:    tags,
+				Tags:    tags.Copy(),
 				Command: msg.Command,
 				Params:  upstreamParams,
 			})
-- 
2.43.0


From 1fa6cfbc7996ebd20d2c8810c88c565de7cfd73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 11/72] fix: don't deadlock when users delete themselves

The user goroutine waited for itself to stop.
---
 service.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/service.go b/service.go
index c2212cf..65e2b9f 100644
--- a/service.go
+++ b/service.go
@@ -1206,24 +1206,34 @@ func handleUserDelete(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("provided confirmation token doesn't match user")
 	}
 
-	var deleteCtx context.Context = ctx
 	if self {
 		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
-		// We can't use ctx here, because it'll be cancelled once we close the
-		// downstream connection
-		deleteCtx = context.TODO()
+		// We're running in the goroutine of the user to be stopped, so we
+		// can't wait for it. We can't use ctx either, because it'll be
+		// cancelled once we close the downstream connection.
+		go func() {
+			if err := stopAndDeleteUser(context.TODO(), ctx.srv, u); err != nil {
+				u.logger.Printf("%v", err)
+			}
+		}()
+		return nil
 	}
 
-	if err := u.stop(deleteCtx); err != nil {
-		return fmt.Errorf("failed to stop user: %v", err)
+	if err := stopAndDeleteUser(ctx, ctx.srv, u); err != nil {
+		return err
 	}
 
-	if err := ctx.srv.db.DeleteUser(deleteCtx, u.ID); err != nil {
-		return fmt.Errorf("failed to delete user: %v", err)
+	ctx.print(fmt.Sprintf("deleted user %q", username))
+	return nil
+}
+
+func stopAndDeleteUser(ctx context.Context, srv *Server, u *user) error {
+	if err := u.stop(ctx); err != nil {
+		return fmt.Errorf("failed to stop user: %v", err)
 	}
 
-	if !self {
-		ctx.print(fmt.Sprintf("deleted user %q", username))
+	if err := srv.db.DeleteUser(ctx, u.ID); err != nil {
+		return fmt.Errorf("failed to delete user: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From c9e8aeb91532b434d636dadc008a2a912878d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:16 +0000
Subject: [PATCH 12/72] fix: keep delivery receipts when a network is updated

Clients which were offline lost all messages they had missed, and the
missing receipts were then stored in the DB.
---
 user.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/user.go b/user.go
index e20a1a3..49b660a 100644
--- a/user.go
+++ b/user.go
@@ -1135,6 +1135,12 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	})
 
 	updatedNetwork := newNetwork(u, record, channels)
+	network.delivered.m.ForEach(func(target string, clients deliveredClientMap) {
+		updatedNetwork.delivered.m.Set(target, clients)
+	})
+	network.pushTargets.ForEach(func(target string, t time.Time) {
+		updatedNetwork.pushTargets.Set(target, t)
+	})
 
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
-- 
2.43.0


From 3a48e8196a8fbcf84ac0e1568835f593234cbc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:20 +0000
Subject: [PATCH 13/72] fix: return the ID of the last message in the memory
 store

LastMsgID returned the ID of the next message, which was thus skipped in
the backlog.
---
 msgstore/memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgstore/memory.go b/msgstore/memory.go
index 099ee70..8d96a1d 100644
--- a/msgstore/memory.go
+++ b/msgstore/memory.go
@@ -76,7 +76,7 @@ func (ms *memoryMessageStore) LastMsgID(network *database.Network, entity string
 	var seq uint64
 	k := ringBufferKey{networkID: network.ID, entity: entity}
 	if rb, ok := ms.buffers[k]; ok {
-		seq = rb.cur
+		seq = rb.cur - 1
 	}
 	return formatMemoryMsgID(network.ID, entity, seq), nil
 }
-- 
2.43.0


From e8de1ebb67ed4e228fde563154fce0d3e19a7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:13 +0000
Subject: [PATCH 14/72] fix: don't use message time to find the last message ID

Message IDs in delivery receipts are compared by value. When the clocks of
the upstream server and the bouncer differ, the ID of the message with the
latest time isn't the last ID, and the same messages were sent in the
backlog again and again.
---
 database/postgres.go | 2 +-
 database/sqlite.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/postgres.go b/database/postgres.go
index 57100e7..5b02cf4 100644
--- a/database/postgres.go
+++ b/database/postgres.go
@@ -809,7 +809,7 @@ func (db *PostgresDB) GetMessageLastID(ctx context.Context, networkID int64, nam
 			SELECT id FROM "MessageTarget"
 			WHERE network = $1 AND target = $2
 		)
-		ORDER BY time DESC LIMIT 1`,
+		ORDER BY id DESC LIMIT 1`,
 		networkID,
 		name,
 	)
diff --git a/database/sqlite.go b/database/sqlite.go
index 753bbaf..9591867 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -1061,7 +1061,7 @@ func (db *SqliteDB) GetMessageLastID(ctx context.Context, networkID int64, name
 	row := db.db.QueryRowContext(ctx, `
 		SELECT m.id FROM Message AS m, MessageTarget AS t
 		WHERE t.network = :network AND t.target = :target AND m.target = t.id
-		ORDER BY m.time DESC LIMIT 1`,
+		ORDER BY m.id DESC LIMIT 1`,
 		sql.Named("network", networkID),
 		sql.Named("target", name),
 	)
-- 
2.43.0


From a40725881b0b0b3b99535c696ded7b6f75002077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:52 +0000
Subject: [PATCH 15/72] fix: give up on servers which never complete
 registration

---
 upstream.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 2856186..fb24aa4 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2054,9 +2054,22 @@ func (uc *upstreamConn) ReadMessage() (*irc.Message, error) {
 }
 
 func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
+	// Don't wait forever if the server doesn't reply
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-ctx.Done():
+			uc.Close()
+		case <-done:
+		}
+	}()
+
 	for !uc.registered {
 		msg, err := uc.ReadMessage()
-		if err != nil {
+		if ctxErr := ctx.Err(); err != nil && ctxErr != nil {
+			return ctxErr
+		} else if err != nil {
 			return fmt.Errorf("failed to read message: %v", err)
 		}
 
-- 
2.43.0


From 99af989dc899edfb31332970cf5fe3231ad99c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:28 +0000
Subject: [PATCH 16/72] fix: forward JOIN when the channel is being left

---
 downstream.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index f17061f..a63d0c6 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1955,8 +1955,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			// Most servers ignore duplicate JOIN messages. We ignore them here
 			// because some clients automatically send JOIN messages in bulk
 			// when reconnecting to the bouncer. We don't want to flood the
-			// upstream connection with these.
-			if !uc.channels.Has(name) {
+			// upstream connection with these. However, if the channel isn't
+			// saved, we might be about to leave it: a PART is in flight.
+			if !uc.channels.Has(name) || !uc.network.channels.Has(name) {
 				params := []string{name}
 				if key != "" {
 					params = append(params, key)
-- 
2.43.0


From 9613a3863c7e585d16bbd3173f56515f128e1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:48 +0000
Subject: [PATCH 17/72] fix: send JOIN for partially joined channels to new
 clients

---
 downstream.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/downstream.go b/downstream.go
index a63d0c6..d308ea6 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1586,9 +1586,6 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 
 	dc.forEachUpstream(func(uc *upstreamConn) {
 		uc.channels.ForEach(func(_ string, ch *upstreamChannel) {
-			if !ch.complete {
-				return
-			}
 			record := uc.network.channels.Get(ch.Name)
 			if record != nil && record.Detached {
 				return
@@ -1609,7 +1606,11 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 				Params:  params,
 			})
 
-			forwardChannel(ctx, dc, ch)
+			// If the member list isn't complete yet, the channel will be
+			// forwarded once we've received all of it
+			if ch.complete {
+				forwardChannel(ctx, dc, ch)
+			}
 		})
 	})
 
-- 
2.43.0


From e7f93340afde9742abfd5ea00ffad45c8419ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:48 +0000
Subject: [PATCH 18/72] fix: don't panic when attaching a partially joined
 channel

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 49b660a..e983f01 100644
--- a/user.go
+++ b/user.go
@@ -377,7 +377,7 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 			Params:  []string{ch.Name},
 		})
 
-		if uch != nil {
+		if uch != nil && uch.complete {
 			forwardChannel(ctx, dc, uch)
 		}
 
-- 
2.43.0


From 2cd35fbf23f8b4dc987aa3cd48e9726d64bc733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:32 +0000
Subject: [PATCH 19/72] fix: tell clients when an unsaved channel is detached

---
 downstream.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/downstream.go b/downstream.go
index d308ea6..67cff27 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2007,15 +2007,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		for _, name := range strings.Split(namesStr, ",") {
 			if strings.EqualFold(reason, "detach") {
 				ch := uc.network.channels.Get(name)
-				if ch != nil {
-					uc.network.detach(ch)
-				} else {
-					ch = &database.Channel{
-						Name:     name,
-						Detached: true,
-					}
+				if ch == nil {
+					ch = &database.Channel{Name: name}
 					uc.network.channels.Set(ch.Name, ch)
 				}
+				uc.network.detach(ch)
 				if err := dc.srv.db.StoreChannel(ctx, uc.network.ID, ch); err != nil {
 					dc.logger.Printf("failed to create or update channel %q: %v", name, err)
 				}
-- 
2.43.0


From 3b39884df39a3402cda30f3c0d50970f9a920290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:08 +0000
Subject: [PATCH 20/72] fix: don't send JOIN when attaching a channel we
 haven't joined

---
 user.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/user.go b/user.go
index e983f01..9fcc972 100644
--- a/user.go
+++ b/user.go
@@ -371,14 +371,17 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 	}
 
 	net.forEachDownstream(func(dc *downstreamConn) {
-		dc.SendMessage(ctx, &irc.Message{
-			Prefix:  dc.prefix(),
-			Command: "JOIN",
-			Params:  []string{ch.Name},
-		})
+		// If we aren't on the channel, JOIN will be sent once we've joined it
+		if uch != nil {
+			dc.SendMessage(ctx, &irc.Message{
+				Prefix:  dc.prefix(),
+				Command: "JOIN",
+				Params:  []string{ch.Name},
+			})
 
-		if uch != nil && uch.complete {
-			forwardChannel(ctx, dc, uch)
+			if uch.complete {
+				forwardChannel(ctx, dc, uch)
+			}
 		}
 
 		if detachedMsgID != "" {
-- 
2.43.0


From 27370f8a55488a4dee52f07f4554b82c702efbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:23 +0000
Subject: [PATCH 21/72] fix: keep monitoring the desired nick

---
 upstream.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/upstream.go b/upstream.go
index fb24aa4..63cb215 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2289,9 +2289,14 @@ func (uc *upstreamConn) updateMonitor() {
 
 	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
 	wantNickCM := uc.network.casemap(wantNick)
-	if _, ok := add[wantNickCM]; !ok && !uc.monitored.Has(wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
-		addList = append(addList, wantNickCM)
-		add[wantNickCM] = struct{}{}
+	if !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
+		if uc.monitored.Has(wantNick) {
+			// Keep monitoring our desired nick
+			seen[wantNickCM] = struct{}{}
+		} else if _, ok := add[wantNickCM]; !ok {
+			addList = append(addList, wantNickCM)
+			add[wantNickCM] = struct{}{}
+		}
 	}
 
 	removeAll := true
-- 
2.43.0


From 3fe6f2b87b63174cedd68240bd1d66108b68198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:35 +0000
Subject: [PATCH 22/72] fix: save channels even if the client disconnects

---
 downstream.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index 67cff27..23133e1 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1932,6 +1932,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			keys = strings.Split(msg.Params[1], ",")
 		}
 
+		// Save the changes even if the client disconnects in the meantime
+		storeCtx, cancel := context.WithTimeout(context.TODO(), handleDownstreamMessageTimeout)
+		defer cancel()
+
 		for i, name := range strings.Split(namesStr, ",") {
 			var key string
 			if len(keys) > i {
@@ -1984,7 +1988,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				}
 				uc.network.channels.Set(ch.Name, ch)
 			}
-			if err := dc.srv.db.StoreChannel(ctx, uc.network.ID, ch); err != nil {
+			if err := dc.srv.db.StoreChannel(storeCtx, uc.network.ID, ch); err != nil {
 				dc.logger.Printf("failed to create or update channel %q: %v", name, err)
 			}
 		}
@@ -2004,6 +2008,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			reason = msg.Params[1]
 		}
 
+		// Save the changes even if the client disconnects in the meantime
+		storeCtx, cancel := context.WithTimeout(context.TODO(), handleDownstreamMessageTimeout)
+		defer cancel()
+
 		for _, name := range strings.Split(namesStr, ",") {
 			if strings.EqualFold(reason, "detach") {
 				ch := uc.network.channels.Get(name)
@@ -2012,7 +2020,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					uc.network.channels.Set(ch.Name, ch)
 				}
 				uc.network.detach(ch)
-				if err := dc.srv.db.StoreChannel(ctx, uc.network.ID, ch); err != nil {
+				if err := dc.srv.db.StoreChannel(storeCtx, uc.network.ID, ch); err != nil {
 					dc.logger.Printf("failed to create or update channel %q: %v", name, err)
 				}
 			} else {
@@ -2025,7 +2033,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  params,
 				})
 
-				if err := uc.network.deleteChannel(ctx, name); err != nil {
+				if err := uc.network.deleteChannel(storeCtx, name); err != nil {
 					dc.logger.Printf("failed to delete channel %q: %v", name, err)
 				}
 
-- 
2.43.0


From e5d5151e9eb756490da6678fdce5f307ff1a04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:20 +0000
Subject: [PATCH 23/72] fix: send the next queued command after giving up on a
 reply

---
 upstream.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/upstream.go b/upstream.go
index 63cb215..db4ee08 100644
--- a/upstream.go
+++ b/upstream.go
@@ -515,17 +515,17 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 		panic(fmt.Errorf("Unsupported pending command %q", msg.Command))
 	}
 
+	// If we didn't get a reply after a while, just give up
+	// TODO: consider sending an abort reply to downstream
+	if l := uc.pendingCmds[msg.Command]; len(l) > 0 && time.Since(l[0].sentAt) > 30*time.Second {
+		uc.dequeueCommand(msg.Command)
+	}
+
 	uc.pendingCmds[msg.Command] = append(uc.pendingCmds[msg.Command], pendingUpstreamCommand{
 		downstreamID: dc.id,
 		msg:          msg,
 	})
 
-	// If we didn't get a reply after a while, just give up
-	// TODO: consider sending an abort reply to downstream
-	if t := uc.pendingCmds[msg.Command][0].sentAt; !t.IsZero() && time.Since(t) > 30*time.Second {
-		copy(uc.pendingCmds[msg.Command], uc.pendingCmds[msg.Command][1:])
-	}
-
 	if len(uc.pendingCmds[msg.Command]) == 1 {
 		uc.sendNextPendingCommand(msg.Command)
 	}
-- 
2.43.0


From 2ff43dca0ed155e6a99ed0129c59f0c7fd075997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:20 +0000
Subject: [PATCH 24/72] fix: update cached user information on CHGHOST

---
 upstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/upstream.go b/upstream.go
index db4ee08..67c6983 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1157,6 +1157,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			Host: newHostname,
 		}
 
+		uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
+			Username: newUsername,
+			Hostname: newHostname,
+		})
+
 		if uc.isOurNick(msg.Prefix.Name) {
 			uc.logger.Printf("changed prefix from %q to %q", msg.Prefix.Host, newPrefix)
 			uc.username = newUsername
-- 
2.43.0


From 0418615bd0eb251614674b60ae24d8a9dd6c4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:04 +0000
Subject: [PATCH 25/72] fix: handle RPL_ENDOFWHOIS after ERR_NOSUCHNICK

---
 upstream.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/upstream.go b/upstream.go
index 67c6983..5c70e53 100644
--- a/upstream.go
+++ b/upstream.go
@@ -227,6 +227,9 @@ type upstreamConn struct {
 	// sent to the server and is awaiting reply. The following entries have not
 	// been sent yet.
 	pendingCmds map[string][]pendingUpstreamCommand
+	// Last WHOIS command which failed with ERR_NOSUCHNICK, RPL_ENDOFWHOIS might
+	// follow
+	failedWHOIS *pendingUpstreamCommand
 
 	pendingRegainNick string
 	regainNickTimer   *time.Timer
@@ -1601,6 +1604,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case xirc.RPL_WHOISCERTFP, xirc.RPL_WHOISREGNICK, irc.RPL_WHOISUSER, irc.RPL_WHOISSERVER, irc.RPL_WHOISCHANNELS, irc.RPL_WHOISOPERATOR, irc.RPL_WHOISIDLE, xirc.RPL_WHOISSPECIAL, xirc.RPL_WHOISACCOUNT, xirc.RPL_WHOISACTUALLY, xirc.RPL_WHOISHOST, xirc.RPL_WHOISMODES, xirc.RPL_WHOISSECURE:
+		uc.failedWHOIS = nil
+
 		dc, cmd := uc.currentPendingCommand("WHOIS")
 		if cmd == nil {
 			return fmt.Errorf("unexpected WHOIS reply %q: no matching pending WHOIS", msg.Command)
@@ -1610,6 +1615,21 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case irc.RPL_ENDOFWHOIS:
+		var nick string
+		if err := parseMessageParams(msg, nil, &nick); err != nil {
+			return err
+		}
+
+		// Most servers send RPL_ENDOFWHOIS after ERR_NOSUCHNICK: the command
+		// has already been dequeued
+		if failed := uc.failedWHOIS; failed != nil && uc.network.equalCasemap(failed.msg.Params[len(failed.msg.Params)-1], nick) {
+			uc.failedWHOIS = nil
+			if dc := uc.downstreamByID(failed.downstreamID); dc != nil {
+				dc.SendMessage(ctx, msg)
+			}
+			return nil
+		}
+
 		dc, cmd := uc.dequeueCommand("WHOIS")
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_ENDOFWHOIS: no matching pending WHOIS")
@@ -1756,6 +1776,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		cm := uc.network.casemap
 		dc, cmd := uc.currentPendingCommand("WHOIS")
 		if cmd != nil && cm(cmd.Params[len(cmd.Params)-1]) == cm(nick) {
+			failed := uc.pendingCmds["WHOIS"][0]
+			uc.failedWHOIS = &failed
 			uc.dequeueCommand("WHOIS")
 			if dc != nil {
 				dc.SendMessage(ctx, msg)
-- 
2.43.0


From 52e3960c491e9c80d50baa515de94e2d8a9e582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:28 +0000
Subject: [PATCH 26/72] fix: don't use SASL credentials which couldn't be saved

---
 service.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/service.go b/service.go
index 65e2b9f..55e6599 100644
--- a/service.go
+++ b/service.go
@@ -807,13 +807,15 @@ func handleServiceCertFPGenerate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.External.CertBlob = cert
-	net.SASL.External.PrivKeyBlob = privKey
-	net.SASL.Mechanism = "EXTERNAL"
+	record := net.Network // copy network record because we'll mutate it
+	record.SASL.External.CertBlob = cert
+	record.SASL.External.PrivKeyBlob = privKey
+	record.SASL.Mechanism = "EXTERNAL"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("certificate generated")
 	sendCertfpFingerprints(ctx, cert)
@@ -899,13 +901,15 @@ func handleServiceSASLSetPlain(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = fs.Arg(0)
-	net.SASL.Plain.Password = fs.Arg(1)
-	net.SASL.Mechanism = "PLAIN"
+	record := net.Network // copy network record because we'll mutate it
+	record.SASL.Plain.Username = fs.Arg(0)
+	record.SASL.Plain.Password = fs.Arg(1)
+	record.SASL.Mechanism = "PLAIN"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials saved")
 	return nil
@@ -927,15 +931,17 @@ func handleServiceSASLReset(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = ""
-	net.SASL.Plain.Password = ""
-	net.SASL.External.CertBlob = nil
-	net.SASL.External.PrivKeyBlob = nil
-	net.SASL.Mechanism = ""
+	record := net.Network // copy network record because we'll mutate it
+	record.SASL.Plain.Username = ""
+	record.SASL.Plain.Password = ""
+	record.SASL.External.CertBlob = nil
+	record.SASL.External.PrivKeyBlob = nil
+	record.SASL.Mechanism = ""
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials reset")
 	return nil
-- 
2.43.0


From d11221a3c25b724ddb08ffcb1250680415c871a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:56 +0000
Subject: [PATCH 27/72] fix: apply channel settings only if they could be
 saved, honor -detached

A rejected "channel update" command still changed the options parsed before
the invalid one, and settings which couldn't be stored were used until the
next restart. "channel create -detached" was ignored.
---
 service.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/service.go b/service.go
index 55e6599..d1b7419 100644
--- a/service.go
+++ b/service.go
@@ -1495,13 +1495,16 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 	if err := fs.update(&ch); err != nil {
 		return err
 	}
-
-	network.channels.Set(ch.Name, &ch)
+	if fs.Detached != nil {
+		ch.Detached = *fs.Detached
+	}
 
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
 		return fmt.Errorf("failed to create channel: %v", err)
 	}
 
+	network.channels.Set(ch.Name, &ch)
+
 	if network.conn != nil {
 		network.conn.SendMessage(ctx, &irc.Message{
 			Command: "JOIN",
@@ -1537,26 +1540,39 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("unknown channel %q", name)
 	}
 
-	if err := fs.update(ch); err != nil {
+	record := *ch // copy channel record because we'll mutate it
+	if err := fs.update(&record); err != nil {
 		return err
 	}
+	if fs.Detached != nil {
+		record.Detached = *fs.Detached
+	}
+
+	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &record); err != nil {
+		return fmt.Errorf("failed to update channel: %v", err)
+	}
 
-	if fs.Detached != nil && *fs.Detached != ch.Detached {
-		if *fs.Detached {
+	detached := record.Detached
+	record.Detached = ch.Detached
+	*ch = record
+
+	if detached != ch.Detached {
+		if detached {
 			network.detach(ch)
 		} else {
 			network.attach(ctx, ch)
 		}
+
+		// Save the last message ID updated above
+		if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
+			network.logger.Printf("failed to update channel %q: %v", ch.Name, err)
+		}
 	}
 
 	if network.conn != nil {
 		network.conn.updateChannelAutoDetach(name)
 	}
 
-	if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
-		return fmt.Errorf("failed to update channel: %v", err)
-	}
-
 	ctx.print(fmt.Sprintf("updated channel %q", name))
 	return nil
 }
-- 
2.43.0


From 1cccec7e9f689220d6bc0f13747f4667b119f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:35 +0000
Subject: [PATCH 28/72] fix: don't skip messages logged at midnight

The file message store looks for messages strictly after 00:00:00 when it
moves on to the next day, so messages logged in the first second of a day
were missing from the results.
---
 msgstore/fs.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 8198fbc..590ec4b 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -280,7 +280,7 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 	}
 }
 
-func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
+func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, start time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
 	path := ms.logPath(options.Network, options.Entity, ref)
 	f, err := os.Open(path)
 	if err != nil {
@@ -297,7 +297,7 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, optio
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(ref) {
+		} else if msg == nil || !t.After(start) {
 			continue
 		} else if !t.Before(end) {
 			break
@@ -364,10 +364,11 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 	var messages []*irc.Message
 	remaining := options.Limit
 	tries := 0
-	for remaining > 0 && tries < fsMessageStoreMaxTries && start.Before(end) {
+	ref := start
+	for remaining > 0 && tries < fsMessageStoreMaxTries && ref.Before(end) {
 		parseOptions := *options
 		parseOptions.Limit = remaining
-		buf, err := ms.parseMessagesAfter(start, end, &parseOptions, selector)
+		buf, err := ms.parseMessagesAfter(ref, start, end, &parseOptions, selector)
 		if err != nil {
 			return nil, err
 		}
@@ -378,8 +379,8 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 		}
 		messages = append(messages, buf...)
 		remaining -= len(buf)
-		year, month, day := start.Date()
-		start = time.Date(year, month, day+1, 0, 0, 0, 0, start.Location())
+		year, month, day := ref.Date()
+		ref = time.Date(year, month, day+1, 0, 0, 0, 0, ref.Location())
 
 		if err := ctx.Err(); err != nil {
 			return nil, err
-- 
2.43.0


From 1440028e2211c85ec36bbc1f4c238edb25769a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:35 +0000
Subject: [PATCH 29/72] fix: don't assume that message logs are sorted by time

Messages from the server carry the server's time, our own messages carry
ours, so a line may be older than the one before it. Stopping at the first
line past the bound skipped such messages.
---
 msgstore/fs.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 590ec4b..2ac9682 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -248,10 +248,9 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(end) {
+		} else if msg == nil || !t.After(end) || !t.Before(ref) {
+			// Lines aren't necessarily sorted by time
 			continue
-		} else if !t.Before(ref) {
-			break
 		}
 		if selector != nil && !selector(msg) {
 			continue
@@ -297,10 +296,9 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, start time.Time, end
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(start) {
+		} else if msg == nil || !t.After(start) || !t.Before(end) {
+			// Lines aren't necessarily sorted by time
 			continue
-		} else if !t.Before(end) {
-			break
 		}
 		if selector != nil && !selector(msg) {
 			continue
-- 
2.43.0


From 02ef5df554301c6cd25c515f824fdae874852be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:35 +0000
Subject: [PATCH 30/72] fix: don't leave partial lines in message logs

When the disk is full a line may be written partially. The next message
was then appended to it, which corrupted both and could make all queries
for that day fail.
---
 msgstore/fs.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 2ac9682..ad9b8c3 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -116,15 +116,6 @@ func (ms *fsMessageStore) logPath(network *database.Network, entity string, t ti
 	return filepath.Join(ms.root, EscapeFilename(network.GetName()), EscapeFilename(entity), filename)
 }
 
-// nextMsgID queries the message ID for the next message to be written to f.
-func nextFSMsgID(network *database.Network, entity string, t time.Time, f *os.File) (string, error) {
-	offset, err := f.Seek(0, io.SeekEnd)
-	if err != nil {
-		return "", fmt.Errorf("failed to query next FS message ID: %v", err)
-	}
-	return formatFSMsgID(network.ID, entity, t, offset), nil
-}
-
 func (ms *fsMessageStore) LastMsgID(network *database.Network, entity string, t time.Time) (string, error) {
 	p := ms.logPath(network, entity, t)
 	fi, err := os.Stat(p)
@@ -194,17 +185,19 @@ func (ms *fsMessageStore) Append(network *database.Network, entity string, msg *
 		}
 	}
 
-	msgID, err := nextFSMsgID(network, entity, t, f.File)
+	offset, err := f.Seek(0, io.SeekEnd)
 	if err != nil {
-		return "", fmt.Errorf("failed to generate message ID: %v", err)
+		return "", fmt.Errorf("failed to query next FS message ID: %v", err)
 	}
 
 	_, err = fmt.Fprintf(f, "%s\n", s)
 	if err != nil {
+		// Don't leave a partial line behind
+		f.Truncate(offset)
 		return "", fmt.Errorf("failed to log message to %q: %v", f.Name(), err)
 	}
 
-	return msgID, nil
+	return formatFSMsgID(network.ID, entity, t, offset), nil
 }
 
 func (ms *fsMessageStore) Close() error {
-- 
2.43.0


From 98f1907dbed64e245bf33498fb54e5239bcae205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 31/72] fix: don't apply connection events of replaced networks

---
 user.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/user.go b/user.go
index 9fcc972..f233d35 100644
--- a/user.go
+++ b/user.go
@@ -658,6 +658,11 @@ func (u *user) run() {
 		case eventUpstreamConnected:
 			uc := e.uc
 
+			// The network may have been updated or removed in the meantime
+			if uc.network.isStopped() {
+				break
+			}
+
 			uc.network.conn = uc
 
 			uc.updateAway()
@@ -687,14 +692,12 @@ func (u *user) run() {
 		case eventUpstreamConnectionError:
 			net := e.net
 
-			stopped := false
-			select {
-			case <-net.stopped:
-				stopped = true
-			default:
+			// The network may have been updated or removed in the meantime
+			if net.isStopped() {
+				break
 			}
 
-			if !stopped && (net.lastError == nil || net.lastError.Error() != e.err.Error()) {
+			if net.lastError == nil || net.lastError.Error() != e.err.Error() {
 				net.forEachDownstream(func(dc *downstreamConn) {
 					sendServiceNOTICE(dc, fmt.Sprintf("failed connecting/registering to %s: %v", net.GetName(), e.err))
 				})
@@ -706,6 +709,10 @@ func (u *user) run() {
 		case eventUpstreamError:
 			uc := e.uc
 
+			if uc.network.isStopped() {
+				break
+			}
+
 			uc.forEachDownstream(func(dc *downstreamConn) {
 				sendServiceNOTICE(dc, fmt.Sprintf("disconnected from %s: %v", uc.network.GetName(), e.err))
 			})
-- 
2.43.0


From cf257498c4f8735cc5cd01d0866360f399e7264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 32/72] fix: announce removed network attributes

---
 user.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/user.go b/user.go
index f233d35..98365f6 100644
--- a/user.go
+++ b/user.go
@@ -1152,6 +1152,8 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 		updatedNetwork.pushTargets.Set(target, t)
 	})
 
+	prevAttrs := getNetworkAttrs(network)
+
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
 	network.stop()
@@ -1185,6 +1187,11 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 
 	// TODO: only broadcast attributes that have changed
 	attrs := getNetworkAttrs(updatedNetwork)
+	for name := range prevAttrs {
+		if _, ok := attrs[name]; !ok {
+			attrs[name] = "" // removed
+		}
+	}
 	u.notifyBouncerNetworkState(updatedNetwork.ID, attrs)
 
 	return updatedNetwork, nil
-- 
2.43.0


From 9e3f35897ef7d137b55b15d70a1d8a8ad4bf6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:32 +0000
Subject: [PATCH 33/72] fix: announce nickname and realname changes of networks

---
 downstream.go |  5 +++++
 user.go       | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/downstream.go b/downstream.go
index 23133e1..5b6e612 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1842,6 +1842,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 
 		if dc.network != nil {
 			dc.network.Network.Nick = nick
+			dc.user.notifyBouncerNetworkIdentity(dc.network)
 			if uc := dc.upstream(); uc != nil {
 				uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
 					Command: "NICK",
@@ -1890,6 +1891,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				})
 
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
+				if err == nil {
+					dc.network.Network.Realname = record.Realname
+					dc.user.notifyBouncerNetworkIdentity(dc.network)
+				}
 			} else {
 				// This will disconnect then re-connect the upstream connection
 				_, err = dc.user.updateNetwork(ctx, &record, false)
diff --git a/user.go b/user.go
index 98365f6..e80f91a 100644
--- a/user.go
+++ b/user.go
@@ -973,6 +973,15 @@ func (u *user) notifyBouncerNetworkState(netID int64, attrs irc.Tags) {
 	}
 }
 
+// notifyBouncerNetworkIdentity sends the nickname and realname of a network,
+// which default to the user's.
+func (u *user) notifyBouncerNetworkIdentity(network *network) {
+	u.notifyBouncerNetworkState(network.ID, irc.Tags{
+		"nickname": database.GetNick(&u.User, &network.Network),
+		"realname": database.GetRealname(&u.User, &network.Network),
+	})
+}
+
 func (u *user) addNetwork(network *network) {
 	u.networks = append(u.networks, network)
 
@@ -1236,6 +1245,12 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 	}
 	u.User = record
 
+	if nickUpdated || realnameUpdated {
+		for _, net := range u.networks {
+			u.notifyBouncerNetworkIdentity(net)
+		}
+	}
+
 	if nickUpdated {
 		for _, net := range u.networks {
 			if net.Nick != "" {
-- 
2.43.0


From fa112cb8d9238d4494f5c3ff112b127de8b35b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 34/72] fix: announce deleted networks to all clients

When a client deletes the network it's bound to, its connection is closed
and the context canceled before the other clients have been notified.
---
 user.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index e80f91a..ca87f6f 100644
--- a/user.go
+++ b/user.go
@@ -1218,10 +1218,12 @@ func (u *user) deleteNetwork(ctx context.Context, id int64) error {
 
 	u.removeNetwork(network)
 
+	// Don't use ctx here: the connection which has requested the deletion may
+	// have been closed because it was bound to the network
 	idStr := fmt.Sprintf("%v", network.ID)
 	for _, dc := range u.downstreamConns {
 		if dc.caps.IsEnabled("soju.im/bouncer-networks-notify") {
-			dc.SendMessage(ctx, &irc.Message{
+			dc.SendMessage(context.TODO(), &irc.Message{
 				Command: "BOUNCER",
 				Params:  []string{"NETWORK", idStr, "*"},
 			})
-- 
2.43.0


From f8f464df1045a0d39903fd98d33ed7b65f3c3cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 35/72] fix: broadcast read markers even if the client
 disconnects

The new read marker is saved, so all other clients of the user have to know
about it.
---
 downstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 5b6e612..01af289 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2983,7 +2983,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				if !d.caps.IsEnabled("draft/read-marker") {
 					cmd = "READ"
 				}
-				d.SendMessage(ctx, &irc.Message{
+				// Don't use ctx here: other clients must be notified even if
+				// this one has disconnected in the meantime
+				d.SendMessage(context.TODO(), &irc.Message{
 					Prefix:  d.prefix(),
 					Command: cmd,
 					Params:  []string{target, timestampStr},
-- 
2.43.0


From 36b0cf1d025cd7b3896ce28ca9498703f20fa59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 36/72] fix: don't use message IDs of a previous instance with
 the memory store

---
 user.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/user.go b/user.go
index ca87f6f..ff080e5 100644
--- a/user.go
+++ b/user.go
@@ -648,6 +648,19 @@ func (u *user) run() {
 			for _, rcpt := range receipts {
 				network.delivered.StoreID(rcpt.Target, rcpt.Client, rcpt.InternalMsgID)
 			}
+		} else if u.msgStore != nil {
+			// Message IDs saved by a previous instance are meaningless if the
+			// messages are gone
+			network.channels.ForEach(func(_ string, ch *database.Channel) {
+				if !ch.Detached {
+					return
+				}
+				lastID, err := u.msgStore.LastMsgID(&network.Network, network.casemap(ch.Name), time.Now())
+				if err != nil {
+					u.logger.Printf("failed to get last message ID for channel %q: %v", ch.Name, err)
+				}
+				ch.DetachedInternalMsgID = lastID
+			})
 		}
 
 		go network.run()
-- 
2.43.0


From ca8510c0d0e6d2a8e344472521609bf3a738faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 37/72] fix: save the detach position together with the channel
 settings

Otherwise a crash in-between loses the messages received while detached. Also
set it for channels which are created detached.
---
 service.go | 27 +++++++++++++--------------
 user.go    | 34 +++++++++++++++++-----------------
 2 files changed, 30 insertions(+), 31 deletions(-)

diff --git a/service.go b/service.go
index d1b7419..6bbf695 100644
--- a/service.go
+++ b/service.go
@@ -1495,8 +1495,9 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 	if err := fs.update(&ch); err != nil {
 		return err
 	}
-	if fs.Detached != nil {
-		ch.Detached = *fs.Detached
+	if fs.Detached != nil && *fs.Detached {
+		ch.Detached = true
+		ch.DetachedInternalMsgID = network.lastMsgID(&ch)
 	}
 
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
@@ -1544,8 +1545,12 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 	if err := fs.update(&record); err != nil {
 		return err
 	}
-	if fs.Detached != nil {
+	if fs.Detached != nil && *fs.Detached != record.Detached {
 		record.Detached = *fs.Detached
+		record.DetachedInternalMsgID = ""
+		if record.Detached {
+			record.DetachedInternalMsgID = network.lastMsgID(ch)
+		}
 	}
 
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &record); err != nil {
@@ -1554,19 +1559,13 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 
 	detached := record.Detached
 	record.Detached = ch.Detached
+	record.DetachedInternalMsgID = ch.DetachedInternalMsgID
 	*ch = record
 
-	if detached != ch.Detached {
-		if detached {
-			network.detach(ch)
-		} else {
-			network.attach(ctx, ch)
-		}
-
-		// Save the last message ID updated above
-		if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
-			network.logger.Printf("failed to update channel %q: %v", ch.Name, err)
-		}
+	if detached {
+		network.detach(ch)
+	} else {
+		network.attach(ctx, ch)
 	}
 
 	if network.conn != nil {
diff --git a/user.go b/user.go
index ff080e5..d7865f9 100644
--- a/user.go
+++ b/user.go
@@ -318,6 +318,19 @@ func (net *network) stop() {
 	}
 }
 
+// lastMsgID returns the ID of the last message in a channel, or an empty string
+// if it's unknown.
+func (net *network) lastMsgID(ch *database.Channel) string {
+	if net.user.msgStore == nil {
+		return ""
+	}
+	lastID, err := net.user.msgStore.LastMsgID(&net.Network, net.casemap(ch.Name), time.Now())
+	if err != nil {
+		net.logger.Printf("failed to get last message ID for channel %q: %v", ch.Name, err)
+	}
+	return lastID
+}
+
 func (net *network) detach(ch *database.Channel) {
 	if ch.Detached {
 		return
@@ -326,15 +339,7 @@ func (net *network) detach(ch *database.Channel) {
 	net.logger.Printf("detaching channel %q", ch.Name)
 
 	ch.Detached = true
-
-	if net.user.msgStore != nil {
-		nameCM := net.casemap(ch.Name)
-		lastID, err := net.user.msgStore.LastMsgID(&net.Network, nameCM, time.Now())
-		if err != nil {
-			net.logger.Printf("failed to get last message ID for channel %q: %v", ch.Name, err)
-		}
-		ch.DetachedInternalMsgID = lastID
-	}
+	ch.DetachedInternalMsgID = net.lastMsgID(ch)
 
 	if net.conn != nil {
 		uch := net.conn.channels.Get(ch.Name)
@@ -648,18 +653,13 @@ func (u *user) run() {
 			for _, rcpt := range receipts {
 				network.delivered.StoreID(rcpt.Target, rcpt.Client, rcpt.InternalMsgID)
 			}
-		} else if u.msgStore != nil {
+		} else {
 			// Message IDs saved by a previous instance are meaningless if the
 			// messages are gone
 			network.channels.ForEach(func(_ string, ch *database.Channel) {
-				if !ch.Detached {
-					return
-				}
-				lastID, err := u.msgStore.LastMsgID(&network.Network, network.casemap(ch.Name), time.Now())
-				if err != nil {
-					u.logger.Printf("failed to get last message ID for channel %q: %v", ch.Name, err)
+				if ch.Detached {
+					ch.DetachedInternalMsgID = network.lastMsgID(ch)
 				}
-				ch.DetachedInternalMsgID = lastID
 			})
 		}
 
-- 
2.43.0


From f03f5108dd407d688fce49400ed95499048b2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 38/72] fix: attach channels for all clients even if one
 disconnects

When the client which has requested to attach a channel was gone before
everything was sent, the other clients didn't get the messages received while
the channel was detached.
---
 downstream.go | 2 +-
 service.go    | 2 +-
 upstream.go   | 2 +-
 user.go       | 6 +++++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/downstream.go b/downstream.go
index 01af289..6b7e5f5 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1985,7 +1985,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				if key != "" {
 					ch.Key = key
 				}
-				uc.network.attach(ctx, ch)
+				uc.network.attach(ch)
 			} else {
 				ch = &database.Channel{
 					Name: name,
diff --git a/service.go b/service.go
index 6bbf695..49e788a 100644
--- a/service.go
+++ b/service.go
@@ -1565,7 +1565,7 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 	if detached {
 		network.detach(ch)
 	} else {
-		network.attach(ctx, ch)
+		network.attach(ch)
 	}
 
 	if network.conn != nil {
diff --git a/upstream.go b/upstream.go
index 5c70e53..a11ae3c 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1888,7 +1888,7 @@ func (uc *upstreamConn) handleDetachedMessage(ctx context.Context, ch *database.
 		})
 	}
 	if ch.ReattachOn == database.FilterMessage || (ch.ReattachOn == database.FilterHighlight && uc.network.isHighlight(msg)) {
-		uc.network.attach(ctx, ch)
+		uc.network.attach(ch)
 		if err := uc.srv.db.StoreChannel(ctx, uc.network.ID, ch); err != nil {
 			uc.logger.Printf("failed to update channel %q: %v", ch.Name, err)
 		}
diff --git a/user.go b/user.go
index d7865f9..df0c404 100644
--- a/user.go
+++ b/user.go
@@ -357,11 +357,15 @@ func (net *network) detach(ch *database.Channel) {
 	})
 }
 
-func (net *network) attach(ctx context.Context, ch *database.Channel) {
+func (net *network) attach(ch *database.Channel) {
 	if !ch.Detached {
 		return
 	}
 
+	// All clients need to be updated, even if the one which has requested this
+	// disconnects in the meantime
+	ctx := context.TODO()
+
 	net.logger.Printf("attaching channel %q", ch.Name)
 
 	detachedMsgID := ch.DetachedInternalMsgID
-- 
2.43.0


From 29fa176ccce6afe50752ee65dd32e0b00fb110a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:27 +0000
Subject: [PATCH 39/72] fix: don't rely on MONITOR replies for targets we no
 longer monitor

---
 upstream.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index a11ae3c..2acb6e2 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1683,9 +1683,20 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		targets := strings.Split(targetsStr, ",")
 
 		online := msg.Command == irc.RPL_MONONLINE
+		var removeList []string
 		for _, target := range targets {
 			prefix := irc.ParsePrefix(target)
-			uc.monitored.Set(prefix.Name, online)
+			if uc.wantMonitor(prefix.Name) {
+				uc.monitored.Set(prefix.Name, online)
+			} else {
+				// This was sent before the server handled our request to
+				// stop monitoring the target, or before we lost interest
+				uc.monitored.Del(prefix.Name)
+				removeList = append(removeList, prefix.Name)
+			}
+		}
+		for _, msg := range xirc.GenerateMonitor("-", removeList) {
+			uc.SendMessage(ctx, msg)
 		}
 
 		// Check if the nick we want is now free
@@ -2287,6 +2298,19 @@ func (uc *upstreamConn) updateChannelAutoDetach(name string) {
 	uch.updateAutoDetach(ch.DetachAfter)
 }
 
+// wantMonitor returns true if a downstream connection monitors the target, or
+// if it's our desired nick and we don't have it yet.
+func (uc *upstreamConn) wantMonitor(target string) bool {
+	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
+	want := uc.network.equalCasemap(target, wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick
+	uc.forEachDownstream(func(dc *downstreamConn) {
+		if dc.monitored.Has(target) {
+			want = true
+		}
+	})
+	return want
+}
+
 func (uc *upstreamConn) updateMonitor() {
 	if _, ok := uc.isupport["MONITOR"]; !ok {
 		return
-- 
2.43.0


From 16e08eebde5a5e46cbdf80e5ce31888f0cca28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 40/72] fix: remove partially written files when an upload
 fails

---
 fileupload/fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index c0c401d..47db551 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -87,7 +87,12 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 	if f == nil {
 		return "", fmt.Errorf("failed to pick filename")
 	}
-	defer f.Close()
+	defer func() {
+		f.Close()
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
 
 	if _, err := io.Copy(f, r); err != nil {
 		return "", fmt.Errorf("failed to write file: %w", err)
-- 
2.43.0


From 2c0c92a69b5c212bf0d9f91048a4a123df83250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 41/72] fix: let in clients which create the same user
 concurrently

---
 server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server.go b/server.go
index 9524a77..10c606d 100644
--- a/server.go
+++ b/server.go
@@ -552,6 +552,10 @@ func (s *Server) getOrCreateUser(ctx context.Context, username string) (*user, e
 	}
 
 	if _, err := s.db.GetUser(ctx, username); err == nil {
+		// Another connection may have just created the user
+		if user := s.getUser(username); user != nil {
+			return user, nil
+		}
 		return nil, fmt.Errorf("user %q exists in the DB but hasn't been loaded by the bouncer -- a restart may help", username)
 	}
 
@@ -563,6 +567,9 @@ func (s *Server) getOrCreateUser(ctx context.Context, username string) (*user, e
 	record := database.NewUser(username)
 	user, err := s.createUser(ctx, record)
 	if err != nil {
+		if user := s.getUser(username); user != nil {
+			return user, nil
+		}
 		return nil, fmt.Errorf("failed to automatically create user %q after successful authentication: %v", username, err)
 	}
 	return user, nil
-- 
2.43.0


From ab8fbc4e87fd70ffdc22dbac875b970bcd7a6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:43 +0000
Subject: [PATCH 42/72] fix: don't leave networks running if a user fails to
 load

---
 user.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/user.go b/user.go
index df0c404..5a5dcda 100644
--- a/user.go
+++ b/user.go
@@ -666,7 +666,11 @@ func (u *user) run() {
 				}
 			})
 		}
+	}
 
+	// Only start the networks once everything has been loaded: they wouldn't
+	// be stopped if we were to bail out above
+	for _, network := range u.networks {
 		go network.run()
 	}
 
-- 
2.43.0


From 6556bdb2241101d6781e6f447274c9458427099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:11 +0000
Subject: [PATCH 43/72] fix: forget about MONITOR targets refused by the server

---
 upstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/upstream.go b/upstream.go
index 2acb6e2..e35de48 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1737,6 +1737,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 
 		targets := strings.Split(targetsStr, ",")
+		for _, target := range targets {
+			// We may have been told about the target because of an earlier
+			// request
+			uc.monitored.Del(target)
+		}
 		uc.forEachDownstream(func(dc *downstreamConn) {
 			for _, target := range targets {
 				if dc.monitored.Has(target) {
-- 
2.43.0


From 3514cffeb33e82d30ce833b8d7f19354eb384ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:18 +0000
Subject: [PATCH 44/72] fix: don't disable users who have become active in the
 meantime

---
 server.go | 10 ++++++++--
 user.go   | 11 +++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 10c606d..23eb7c6 100644
--- a/server.go
+++ b/server.go
@@ -789,7 +789,8 @@ func (s *Server) disableInactiveUsers(ctx context.Context) error {
 	ctx, cancel := context.WithTimeout(ctx, time.Minute)
 	defer cancel()
 
-	usernames, err := s.db.ListInactiveUsernames(ctx, time.Now().Add(-delay))
+	limit := time.Now().Add(-delay)
+	usernames, err := s.db.ListInactiveUsernames(ctx, limit)
 	if err != nil {
 		return fmt.Errorf("failed to list inactive users: %v", err)
 	} else if len(usernames) == 0 {
@@ -823,6 +824,9 @@ func (s *Server) disableInactiveUsers(ctx context.Context) error {
 		done := make(chan error, 1)
 		enabled := false
 		event := eventUserUpdate{
+			// The user may have connected in the meantime
+			inactiveSince: limit,
+
 			enabled: &enabled,
 			done:    done,
 		}
@@ -837,7 +841,9 @@ func (s *Server) disableInactiveUsers(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 		case err := <-done:
-			if err != nil {
+			if errors.Is(err, errUserActive) {
+				continue
+			} else if err != nil {
 				return err
 			} else {
 				s.Logger.Printf("deleted inactive user %q", u.Username)
diff --git a/user.go b/user.go
index 5a5dcda..24fa519 100644
--- a/user.go
+++ b/user.go
@@ -74,7 +74,13 @@ type eventBroadcast struct {
 
 type eventStop struct{}
 
+var errUserActive = errors.New("user is active")
+
 type eventUserUpdate struct {
+	// if non-zero, fail with errUserActive unless the user has been inactive
+	// since that time
+	inactiveSince time.Time
+
 	password    *string
 	admin       *bool
 	enabled     *bool
@@ -864,6 +870,11 @@ func (u *user) run() {
 				dc.SendMessage(context.TODO(), msg)
 			}
 		case eventUserUpdate:
+			if !e.inactiveSince.IsZero() && (len(u.downstreamConns) > 0 || u.DownstreamInteractedAt.After(e.inactiveSince)) {
+				e.done <- errUserActive
+				break
+			}
+
 			e.done <- u.updateUser(context.TODO(), func(record *database.User) error {
 				if e.password != nil {
 					record.Password = *e.password
-- 
2.43.0


From 41963f29140d7d989a8e6c79f284be7bdde36cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:18 +0000
Subject: [PATCH 45/72] fix: remember that users were active until the server
 was stopped

---
 user.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/user.go b/user.go
index 24fa519..07c8240 100644
--- a/user.go
+++ b/user.go
@@ -927,8 +927,13 @@ func (u *user) run() {
 			case e.ch <- userRunMsg{err: err}:
 			}
 		case eventStop:
+			active := false
 			for _, dc := range u.downstreamConns {
 				dc.Close()
+				active = active || !dc.impersonating
+			}
+			if active {
+				u.bumpDownstreamInteractionTime(context.TODO())
 			}
 			for _, n := range u.networks {
 				n.stop()
-- 
2.43.0


From e99d8b28dfb8bb0fd9df2832a7d1834fe65fd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:41 +0000
Subject: [PATCH 46/72] fix: only compare the server's own certificate with the
 pinned fingerprint

---
 upstream.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/upstream.go b/upstream.go
index e35de48..4510f3b 100644
--- a/upstream.go
+++ b/upstream.go
@@ -292,26 +292,27 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 				parts := strings.SplitN(network.CertFP, ":", 2)
 				algo, localCertFP := parts[0], parts[1]
 
-				for _, rawCert := range rawCerts {
-					var remoteCertFP string
-					switch algo {
-					case "sha-512":
-						sum := sha512.Sum512(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					case "sha-256":
-						sum := sha256.Sum256(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					}
+				// Only the server's own certificate counts: the server hasn't
+				// proven that it owns the rest of the chain
+				rawCert := rawCerts[0]
+				var remoteCertFP string
+				switch algo {
+				case "sha-512":
+					sum := sha512.Sum512(rawCert)
+					remoteCertFP = hex.EncodeToString(sum[:])
+				case "sha-256":
+					sum := sha256.Sum256(rawCert)
+					remoteCertFP = hex.EncodeToString(sum[:])
+				}
 
-					if remoteCertFP == localCertFP {
-						return nil // fingerprints match
-					}
+				if remoteCertFP == localCertFP {
+					return nil // fingerprints match
 				}
 
 				// Fingerprints don't match, let's give the user a fingerprint
 				// they can use to connect
-				sum := sha512.Sum512(rawCerts[0])
-				remoteCertFP := hex.EncodeToString(sum[:])
+				sum := sha512.Sum512(rawCert)
+				remoteCertFP = hex.EncodeToString(sum[:])
 				return fmt.Errorf("the configured TLS certificate fingerprint doesn't match the server's - %s", remoteCertFP)
 			}
 		}
-- 
2.43.0


From 638b35f42d3ee21623f648717bd68a786fcec29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:45 +0000
Subject: [PATCH 47/72] fix: tell servers apart by local address in identd

---
 identd/identd.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/identd/identd.go b/identd/identd.go
index 3aabf30..3546708 100644
--- a/identd/identd.go
+++ b/identd/identd.go
@@ -18,6 +18,7 @@ var identdTimeout = 10 * time.Second
 type identKey struct {
 	remoteHost string
 	remotePort int
+	localHost  string
 	localPort  int
 }
 
@@ -26,13 +27,14 @@ func newIdentKey(remoteAddr, localAddr string) (*identKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	_, localPort, err := splitHostPort(localAddr)
+	localHost, localPort, err := splitHostPort(localAddr)
 	if err != nil {
 		return nil, err
 	}
 	return &identKey{
 		remoteHost: remoteHost,
 		remotePort: remotePort,
+		localHost:  localHost,
 		localPort:  localPort,
 	}, nil
 }
@@ -94,6 +96,11 @@ func (s *Identd) handle(c net.Conn) {
 	if err != nil {
 		return
 	}
+	// Connections from different local addresses may use the same local port
+	localHost, _, err := net.SplitHostPort(c.LocalAddr().String())
+	if err != nil {
+		return
+	}
 
 	scanner := bufio.NewScanner(c)
 
@@ -117,6 +124,7 @@ func (s *Identd) handle(c net.Conn) {
 		k := identKey{
 			remoteHost: remoteHost,
 			remotePort: remotePort,
+			localHost:  localHost,
 			localPort:  localPort,
 		}
 
-- 
2.43.0


From 033c294328c1ee6f84c00f6648dd7b2156ab9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 48/72] fix: drop cached information about monitored users we
 can't see

---
 upstream.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index 4510f3b..eec8371 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1687,6 +1687,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		var removeList []string
 		for _, target := range targets {
 			prefix := irc.ParsePrefix(target)
+			if !online {
+				// We may not share any channel with them, in which case we
+				// don't see them quit
+				uc.users.Del(prefix.Name)
+			}
 			if uc.wantMonitor(prefix.Name) {
 				uc.monitored.Set(prefix.Name, online)
 			} else {
@@ -2528,8 +2533,10 @@ func (uc *upstreamConn) shouldCacheUserInfo(nick string) bool {
 	if uc.isOurNick(nick) {
 		return true
 	}
-	// keep the cached user info only if we MONITOR it, or we share a channel with them
-	if uc.monitored.Has(nick) {
+	// keep the cached user info only if we MONITOR it and the server notifies us
+	// about changes, or we share a channel with them
+	extendedMonitor := uc.caps.IsEnabled("extended-monitor") || uc.caps.IsEnabled("draft/extended-monitor")
+	if extendedMonitor && uc.monitored.Has(nick) {
 		return true
 	}
 	found := false
-- 
2.43.0


From b4774dff2c3a33883386d7034de4bbe3735e74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:36 +0000
Subject: [PATCH 49/72] fix: stop the auto-detach timer when kicked from a
 channel

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index eec8371..ac6b7b8 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1278,6 +1278,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.logger.Printf("kicked from channel %q by %s", channel, msg.Prefix.Name)
 			if uch := uc.channels.Get(channel); uch != nil {
 				uc.channels.Del(channel)
+				uch.updateAutoDetach(0)
 				uch.Members.ForEach(func(nick string, memberships *xirc.MembershipSet) {
 					if !uc.shouldCacheUserInfo(nick) {
 						uc.users.Del(nick)
-- 
2.43.0


From 54ec36f9619f3f744004365c67b194904288e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:56 +0000
Subject: [PATCH 50/72] fix: wait for the whole capability list if the server
 knows our nick

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index ac6b7b8..4dd8e46 100644
--- a/upstream.go
+++ b/upstream.go
@@ -719,7 +719,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				return newNeedMoreParamsError(msg.Command)
 			}
 			caps := subParams[len(subParams)-1]
-			more := len(subParams) >= 2 && msg.Params[len(subParams)-2] == "*"
+			more := len(subParams) >= 2 && subParams[len(subParams)-2] == "*"
 
 			uc.handleSupportedCaps(caps)
 
-- 
2.43.0


From 3851dbef388ee686d4c719b4ca13bc0995c47eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 51/72] fix: complete registration if the server refuses SASL

---
 upstream.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/upstream.go b/upstream.go
index 4dd8e46..1e9fd69 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1821,6 +1821,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
 			uc.saslStarted = false
+
+			if !uc.registered {
+				uc.SendMessage(ctx, &irc.Message{
+					Command: "CAP",
+					Params:  []string{"END"},
+				})
+			}
 		}
 
 		uc.forwardMsgByID(ctx, downstreamID, msg)
@@ -2032,6 +2039,12 @@ func (uc *upstreamConn) handleCapAck(ctx context.Context, name string, ok bool)
 		}
 		if !ok {
 			uc.logger.Printf("server refused to acknowledge the SASL capability")
+			if !uc.registered {
+				uc.SendMessage(ctx, &irc.Message{
+					Command: "CAP",
+					Params:  []string{"END"},
+				})
+			}
 			return nil
 		}
 
-- 
2.43.0


From f9c320a46e8aaa25dc8e4c1ded13daf5b74694bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:38 +0000
Subject: [PATCH 52/72] fix: don't crash if a client restarts SASL before the
 server answers

If a client aborts an authentication and starts another one before the
upstream server has replied to the first one, dc.sasl has no credentials
yet.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 1e9fd69..cdc2267 100644
--- a/upstream.go
+++ b/upstream.go
@@ -895,7 +895,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslClient = nil
 		uc.saslStarted = false
 
-		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
+		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil && dc.sasl.plain != nil {
 			if msg.Command == irc.RPL_SASLSUCCESS {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
-- 
2.43.0


From fed7053ad3dae22d08c532baccd3eb98805de633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:38 +0000
Subject: [PATCH 53/72] fix: end the client's SASL exchange when it's refused

Otherwise the client's next attempt is taken for a continuation of the
one which was refused.
---
 downstream.go | 5 +++--
 upstream.go   | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index 6b7e5f5..b254fe5 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2571,10 +2571,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		switch credentials.mechanism {
 		case "PLAIN":
 			if credentials.plain.Identity != "" && credentials.plain.Identity != credentials.plain.Username {
-				return ircError{&irc.Message{
+				dc.endSASL(ctx, &irc.Message{
 					Command: irc.ERR_SASLFAIL,
 					Params:  []string{dc.nick, "SASL PLAIN identity not supported"},
-				}}
+				})
+				break
 			}
 
 			uc.logger.Printf("starting post-registration SASL PLAIN authentication with username %q", credentials.plain.Username)
diff --git a/upstream.go b/upstream.go
index cdc2267..f394002 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1814,11 +1814,16 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		dc, _ := uc.dequeueCommand(command)
+		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
 
 		if command == "AUTHENTICATE" {
+			if dc != nil {
+				dc.sasl = nil
+			}
+
 			uc.saslClient = nil
 			uc.saslStarted = false
 
-- 
2.43.0


From 846447e1b22d882b41edd00793ce6e81cd48f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 54/72] fix: handle servers refusing a second SASL
 authentication

ERR_SASLALREADY was forwarded to all clients, and the attempt was kept
pending until the connection was lost: further attempts were rejected
because one was already in progress.
---
 upstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index f394002..28a62a3 100644
--- a/upstream.go
+++ b/upstream.go
@@ -878,7 +878,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.forEachDownstream(func(dc *downstreamConn) {
 			dc.updateHost(ctx)
 		})
-	case irc.ERR_NICKLOCKED, irc.RPL_SASLSUCCESS, irc.ERR_SASLFAIL, irc.ERR_SASLTOOLONG, irc.ERR_SASLABORTED:
+	case irc.ERR_NICKLOCKED, irc.RPL_SASLSUCCESS, irc.ERR_SASLFAIL, irc.ERR_SASLTOOLONG, irc.ERR_SASLABORTED, irc.ERR_SASLALREADY:
 		var info string
 		if err := parseMessageParams(msg, nil, &info); err != nil {
 			return err
@@ -890,6 +890,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.logger.Printf("SASL authentication failed: %v", info)
 		case irc.ERR_SASLTOOLONG:
 			uc.logger.Printf("SASL message too long: %v", info)
+		case irc.ERR_SASLALREADY:
+			uc.logger.Printf("already authenticated using SASL: %v", info)
 		}
 
 		uc.saslClient = nil
-- 
2.43.0


From 8c02f55d5815e65d6751c69755a44359878633d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:02 +0000
Subject: [PATCH 55/72] fix: tell clients enabling SASL which account is logged
 in

The SASL capability is disabled each time the connection to the upstream
server is lost, so clients have to request it again: they would not learn
that the account has changed in the meantime.
---
 downstream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/downstream.go b/downstream.go
index b254fe5..aaa9de2 100644
--- a/downstream.go
+++ b/downstream.go
@@ -917,6 +917,8 @@ func (dc *downstreamConn) handleCap(ctx context.Context, msg *irc.Message) error
 
 		if !dc.registered {
 			dc.registration.negotiatingCaps = true
+		} else if ack && m["sasl"] {
+			dc.updateAccount(ctx)
 		}
 	case "END":
 		if !dc.registered {
-- 
2.43.0


From 1a88cb472c36f95d90aafa8230d6aa28462c4147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:23 +0000
Subject: [PATCH 56/72] fix: abort the client's SASL exchange when the server
 goes away

Otherwise the client's next attempt is taken for a continuation of the
one which was interrupted.
---
 downstream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/downstream.go b/downstream.go
index aaa9de2..b051353 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1115,6 +1115,10 @@ func (dc *downstreamConn) updateSupportedCaps(ctx context.Context) {
 	if uc := dc.upstream(); uc != nil && uc.supportsSASL("PLAIN") {
 		dc.setSupportedCap(ctx, "sasl", "PLAIN,ANONYMOUS")
 	} else if dc.network != nil {
+		dc.endSASL(ctx, &irc.Message{
+			Command: irc.ERR_SASLABORTED,
+			Params:  []string{dc.nick, "SASL authentication aborted"},
+		})
 		dc.unsetSupportedCap(ctx, "sasl")
 	}
 
-- 
2.43.0


From 90b03abef87e1c1d54203a4d16f817bec6f8b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:23 +0000
Subject: [PATCH 57/72] fix: don't send a departed client's error replies to
 the others

---
 upstream.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index 28a62a3..7eb7fbf 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1816,7 +1816,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		dc, _ := uc.dequeueCommand(command)
+		dc, cmd := uc.dequeueCommand(command)
 		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
@@ -1837,6 +1837,10 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 		}
 
+		if cmd != nil && dc == nil && downstreamID == 0 {
+			return nil // the client which sent the command is gone
+		}
+
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "FAIL":
 		var command, code string
@@ -1848,9 +1852,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return registrationError{msg}
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		dc, cmd := uc.dequeueCommand(command)
+		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
+		if cmd != nil && dc == nil && downstreamID == 0 {
+			return nil // the client which sent the command is gone
+		}
 
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "ACK":
-- 
2.43.0


From 7607bb5693f3cd29f5dae76778a78f0f07b48603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:52 +0000
Subject: [PATCH 58/72] fix: handle negated ISUPPORT tokens

The dash was taken for a part of the parameter's name, so that the
parameter stayed set, and it was dropped from what's sent to clients.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 7eb7fbf..7d89351 100644
--- a/upstream.go
+++ b/upstream.go
@@ -962,7 +962,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			var value string
 			if strings.HasPrefix(token, "-") {
 				negate = true
-				token = token[1:]
+				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
 				value = token[i+1:]
-- 
2.43.0


From 1a7790ca597a70bd55d3a3227d022944b3d6cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 59/72] fix: tell clients when the value of a capability
 changes

---
 upstream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/upstream.go b/upstream.go
index 7d89351..4f5f918 100644
--- a/upstream.go
+++ b/upstream.go
@@ -765,6 +765,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 			uc.handleSupportedCaps(subParams[0])
 			uc.updateCaps(ctx)
+
+			// The values of enabled capabilities may have changed
+			if uc.registered {
+				uc.forEachDownstream(func(dc *downstreamConn) {
+					dc.updateSupportedCaps(ctx)
+				})
+			}
 		case "DEL":
 			if len(subParams) < 1 {
 				return newNeedMoreParamsError(msg.Command)
-- 
2.43.0


From a6566030f404903658412eff29d19b05da485021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 60/72] fix: disable echo-message if the server drops
 labeled-response

Without labels we can't tell which client a message comes from, and its
sender gets it back although it hasn't asked for echoes.
---
 upstream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upstream.go b/upstream.go
index 4f5f918..a49b9d9 100644
--- a/upstream.go
+++ b/upstream.go
@@ -781,6 +781,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			for _, c := range caps {
 				uc.caps.Del(c)
 			}
+			// We may need to disable echo-message if labeled-response is gone
+			uc.updateCaps(ctx)
 
 			if uc.registered {
 				uc.forEachDownstream(func(dc *downstreamConn) {
-- 
2.43.0


From 1a333a9898547f680209361764e0106fb69f21f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:08 +0000
Subject: [PATCH 61/72] fix: don't escape the server's ISUPPORT values twice

For example, NETWORK=Foo\x20Bar was sent as NETWORK=Foo\x5Cx20Bar to
clients.
---
 downstream.go  |  4 ++--
 xirc/genmsg.go | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/downstream.go b/downstream.go
index b051353..ca7fac4 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1490,7 +1490,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 		isupport = append(isupport, "BOT=B", "CASEMAPPING=ascii")
 	}
 	if title := dc.srv.Config().Title; dc.network == nil && title != "" {
-		isupport = append(isupport, "NETWORK="+title)
+		isupport = append(isupport, "NETWORK="+xirc.EncodeIsupportValue(title))
 	}
 	if dc.network == nil {
 		isupport = append(isupport, "WHOX")
@@ -1505,7 +1505,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 		isupport = append(isupport, "VAPID="+dc.srv.webPush.VAPIDKeys.Public)
 	}
 	if dc.srv.Config().FileUploader != nil {
-		isupport = append(isupport, "soju.im/FILEHOST="+dc.srv.Config().HTTPIngress+"/uploads")
+		isupport = append(isupport, "soju.im/FILEHOST="+xirc.EncodeIsupportValue(dc.srv.Config().HTTPIngress+"/uploads"))
 	}
 
 	if uc := dc.upstream(); uc != nil {
diff --git a/xirc/genmsg.go b/xirc/genmsg.go
index 9327d49..4ecb58a 100644
--- a/xirc/genmsg.go
+++ b/xirc/genmsg.go
@@ -82,6 +82,8 @@ func (js *joinSorter) Swap(i, j int) {
 	js.keys[i], js.keys[j] = js.keys[j], js.keys[i]
 }
 
+// GenerateIsupport generates RPL_ISUPPORT messages. Values must be encoded with
+// EncodeIsupportValue.
 func GenerateIsupport(tokens []string) []*irc.Message {
 	maxTokens := maxMessageParams - 2 // 2 reserved params: nick + text
 
@@ -97,14 +99,9 @@ func GenerateIsupport(tokens []string) []*irc.Message {
 			tokens = nil
 		}
 
-		encodedTokens := make([]string, len(msgTokens))
-		for i, tok := range msgTokens {
-			encodedTokens[i] = isupportEncoder.Replace(tok)
-		}
-
 		msgs = append(msgs, &irc.Message{
 			Command: irc.RPL_ISUPPORT,
-			Params:  append(append([]string{"*"}, encodedTokens...), "are supported"),
+			Params:  append(append([]string{"*"}, msgTokens...), "are supported"),
 		})
 	}
 
@@ -113,6 +110,11 @@ func GenerateIsupport(tokens []string) []*irc.Message {
 
 var isupportEncoder = strings.NewReplacer(" ", "\\x20", "\\", "\\x5C")
 
+// EncodeIsupportValue escapes the value of an RPL_ISUPPORT token.
+func EncodeIsupportValue(value string) string {
+	return isupportEncoder.Replace(value)
+}
+
 func GenerateMOTD(motd string) []*irc.Message {
 	var msgs []*irc.Message
 	msgs = append(msgs, &irc.Message{
-- 
2.43.0


From bc44b0355263c812ccf4c2b529ef171d3614599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:55 +0000
Subject: [PATCH 62/72] fix: don't request echo-message from servers which
 don't offer it

The server refuses all capabilities requested together with it.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index a49b9d9..385f711 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2010,7 +2010,7 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 		}
 	}
 
-	echoMessage := uc.caps.IsAvailable("labeled-response")
+	echoMessage := uc.caps.IsAvailable("labeled-response") && uc.caps.IsAvailable("echo-message")
 	if !uc.caps.IsEnabled("echo-message") && echoMessage {
 		requestCaps = append(requestCaps, "echo-message")
 	} else if uc.caps.IsEnabled("echo-message") && !echoMessage {
-- 
2.43.0


From 109cdf16f8ea5019aa77132bfea7c5886645fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 63/72] fix: don't delete another web push subscription whose
 ID was reused

SQLite reuses row IDs: when two notifications to an expired endpoint fail
one after another, the second failure could delete a subscription which
was registered in between.
---
 database/database.go | 4 +++-
 database/postgres.go | 4 ++--
 database/sqlite.go   | 4 ++--
 downstream.go        | 2 +-
 user.go              | 4 ++--
 5 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/database/database.go b/database/database.go
index d9538c9..3a73f89 100644
--- a/database/database.go
+++ b/database/database.go
@@ -57,7 +57,9 @@ type Database interface {
 
 	ListWebPushSubscriptions(ctx context.Context, userID, networkID int64) ([]WebPushSubscription, error)
 	StoreWebPushSubscription(ctx context.Context, userID, networkID int64, sub *WebPushSubscription) error
-	DeleteWebPushSubscription(ctx context.Context, id int64) error
+	// DeleteWebPushSubscription deletes a subscription by ID, unless that ID
+	// has since been reused for another endpoint.
+	DeleteWebPushSubscription(ctx context.Context, id int64, endpoint string) error
 
 	GetMessageLastID(ctx context.Context, networkID int64, name string) (int64, error)
 	StoreMessages(ctx context.Context, networkID int64, name string, msgs []*irc.Message) ([]int64, error)
diff --git a/database/postgres.go b/database/postgres.go
index 5b02cf4..2d3a649 100644
--- a/database/postgres.go
+++ b/database/postgres.go
@@ -790,11 +790,11 @@ func (db *PostgresDB) StoreWebPushSubscription(ctx context.Context, userID, netw
 	return err
 }
 
-func (db *PostgresDB) DeleteWebPushSubscription(ctx context.Context, id int64) error {
+func (db *PostgresDB) DeleteWebPushSubscription(ctx context.Context, id int64, endpoint string) error {
 	ctx, cancel := context.WithTimeout(ctx, postgresQueryTimeout)
 	defer cancel()
 
-	_, err := db.db.ExecContext(ctx, `DELETE FROM "WebPushSubscription" WHERE id = $1`, id)
+	_, err := db.db.ExecContext(ctx, `DELETE FROM "WebPushSubscription" WHERE id = $1 AND endpoint = $2`, id, endpoint)
 	return err
 }
 
diff --git a/database/sqlite.go b/database/sqlite.go
index 9591867..fe60d40 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -1045,11 +1045,11 @@ func (db *SqliteDB) StoreWebPushSubscription(ctx context.Context, userID, networ
 	return err
 }
 
-func (db *SqliteDB) DeleteWebPushSubscription(ctx context.Context, id int64) error {
+func (db *SqliteDB) DeleteWebPushSubscription(ctx context.Context, id int64, endpoint string) error {
 	ctx, cancel := context.WithTimeout(ctx, sqliteQueryTimeout)
 	defer cancel()
 
-	_, err := db.db.ExecContext(ctx, "DELETE FROM WebPushSubscription WHERE id = ?", id)
+	_, err := db.db.ExecContext(ctx, "DELETE FROM WebPushSubscription WHERE id = ? AND endpoint = ?", id, endpoint)
 	return err
 }
 
diff --git a/downstream.go b/downstream.go
index ca7fac4..9b1f30e 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3356,7 +3356,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return nil
 			}
 
-			if err := dc.srv.db.DeleteWebPushSubscription(ctx, oldSub.ID); err != nil {
+			if err := dc.srv.db.DeleteWebPushSubscription(ctx, oldSub.ID, oldSub.Endpoint); err != nil {
 				dc.logger.Printf("failed to delete Web push subscription: %v", err)
 				return ircError{&irc.Message{
 					Command: "FAIL",
diff --git a/user.go b/user.go
index 07c8240..45b3f40 100644
--- a/user.go
+++ b/user.go
@@ -524,7 +524,7 @@ func (net *network) broadcastWebPush(msg *irc.Message) {
 			},
 		}, sub.Keys.VAPID, msg)
 		if err == errWebPushSubscriptionExpired {
-			if err := net.user.srv.db.DeleteWebPushSubscription(ctx, sub.ID); err != nil {
+			if err := net.user.srv.db.DeleteWebPushSubscription(ctx, sub.ID, sub.Endpoint); err != nil {
 				net.logger.Printf("failed to delete expired Web Push subscription %q: %v", sub.Endpoint, err)
 			} else {
 				net.logger.Debugf("deleted expired Web Push subscription %q", sub.Endpoint)
@@ -533,7 +533,7 @@ func (net *network) broadcastWebPush(msg *irc.Message) {
 			net.logger.Printf("failed to send Web push notification to endpoint %q: %v", sub.Endpoint, err)
 			// If it failed for any reason and is old, delete it
 			if time.Since(sub.UpdatedAt) > webpushPruneSubscriptionDelay {
-				if err := net.user.srv.db.DeleteWebPushSubscription(ctx, sub.ID); err != nil {
+				if err := net.user.srv.db.DeleteWebPushSubscription(ctx, sub.ID, sub.Endpoint); err != nil {
 					net.logger.Printf("failed to delete pruned Web Push subscription %q: %v", sub.Endpoint, err)
 				} else {
 					net.logger.Printf("deleted pruned Web Push subscription %q", sub.Endpoint)
-- 
2.43.0


From da6c0d39877981aee497b0ab2289d665882410ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:18 +0000
Subject: [PATCH 64/72] fix: prefer the network with that name over others with
 that address

A network without a name goes by its address. Commands and clients which
used that name got another, named network with the same address if it came
first.
---
 user.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index 45b3f40..e71bd67 100644
--- a/user.go
+++ b/user.go
@@ -603,10 +603,12 @@ func (u *user) forEachUpstream(f func(uc *upstreamConn)) {
 
 func (u *user) getNetwork(name string) *network {
 	for _, network := range u.networks {
-		if network.Addr == name {
+		if network.GetName() == name {
 			return network
 		}
-		if network.Name != "" && network.Name == name {
+	}
+	for _, network := range u.networks {
+		if network.Addr == name {
 			return network
 		}
 	}
-- 
2.43.0


From 8199b0bded0693c38c7396e0565df5b9d459242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 65/72] fix: refuse WebSocket messages containing several lines

A line break inside of a WebSocket message ended up in the parameters of the
IRC message, and was then written to the upstream server, the other clients
and the logs: the rest was taken for a message of its own.
---
 conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index b6dabfa..53b6683 100644
--- a/conn.go
+++ b/conn.go
@@ -3,6 +3,7 @@ package soju
 import (
 	"context"
 	"errors"
+	"fmt"
 	"io"
 	"net"
 	"strings"
@@ -61,7 +62,12 @@ func (wic *websocketIRCConn) ReadMessage() (*irc.Message, error) {
 			return nil, err
 		}
 	}
-	return irc.ParseMessage(string(b))
+	line := strings.TrimRight(string(b), "\r\n")
+	if strings.ContainsAny(line, "\r\n") {
+		// This would be forwarded as several messages
+		return nil, fmt.Errorf("WebSocket message contains multiple lines")
+	}
+	return irc.ParseMessage(line)
 }
 
 func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
-- 
2.43.0


From 14770aebcb23ecdaf26722b0f6ac90cd35dcb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 66/72] fix: don't relay messages twice while negotiating
 capabilities

Messages sent after a CAP REQ but before the server's reply are handled by
the server with the new capabilities. If echo-message was requested, they
were both relayed by soju and echoed by the server; and they lacked a label,
so the echo wasn't withheld from the client which sent it.
---
 downstream.go |  2 +-
 upstream.go   | 27 +++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index 9b1f30e..777b25c 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2515,7 +2515,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			// If the upstream supports echo message, we'll produce the message
 			// when it is echoed from the upstream.
 			// Otherwise, produce/log it here because it's the last time we'll see it.
-			if !uc.caps.IsEnabled("echo-message") {
+			if !uc.isCapEnabledForOutgoing("echo-message") {
 				echoParams := []string{name}
 				if msg.Command != "TAGMSG" {
 					echoParams = append(echoParams, text)
diff --git a/upstream.go b/upstream.go
index 385f711..3f842ca 100644
--- a/upstream.go
+++ b/upstream.go
@@ -214,6 +214,7 @@ type upstreamConn struct {
 	channels    xirc.CaseMappingMap[*upstreamChannel]
 	users       xirc.CaseMappingMap[*upstreamUser]
 	caps        xirc.CapRegistry
+	pendingCaps map[string]bool // capabilities requested but not yet acknowledged
 	batches     map[string]upstreamBatch
 	away        bool
 	account     string
@@ -363,6 +364,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 		channels:              xirc.NewCaseMappingMap[*upstreamChannel](cm),
 		users:                 xirc.NewCaseMappingMap[*upstreamUser](cm),
 		caps:                  xirc.NewCapRegistry(),
+		pendingCaps:           make(map[string]bool),
 		batches:               make(map[string]upstreamBatch),
 		serverPrefix:          &irc.Prefix{Name: "*"},
 		availableChannelTypes: stdChannelTypes,
@@ -780,6 +782,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 			for _, c := range caps {
 				uc.caps.Del(c)
+				delete(uc.pendingCaps, c)
 			}
 			// We may need to disable echo-message if labeled-response is gone
 			uc.updateCaps(ctx)
@@ -2011,9 +2014,9 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 	}
 
 	echoMessage := uc.caps.IsAvailable("labeled-response") && uc.caps.IsAvailable("echo-message")
-	if !uc.caps.IsEnabled("echo-message") && echoMessage {
+	if !uc.isCapEnabledForOutgoing("echo-message") && echoMessage {
 		requestCaps = append(requestCaps, "echo-message")
-	} else if uc.caps.IsEnabled("echo-message") && !echoMessage {
+	} else if uc.isCapEnabledForOutgoing("echo-message") && !echoMessage {
 		requestCaps = append(requestCaps, "-echo-message")
 	}
 
@@ -2025,6 +2028,21 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 		Command: "CAP",
 		Params:  []string{"REQ", strings.Join(requestCaps, " ")},
 	})
+	for _, name := range requestCaps {
+		uc.pendingCaps[strings.TrimPrefix(name, "-")] = !strings.HasPrefix(name, "-")
+	}
+}
+
+// isCapEnabledForOutgoing returns true if the server will have enabled a
+// capability by the time it handles the next message we send.
+//
+// This may differ from the capabilities enabled for incoming messages if
+// the server hasn't replied to our request yet.
+func (uc *upstreamConn) isCapEnabledForOutgoing(name string) bool {
+	if enabled, ok := uc.pendingCaps[name]; ok {
+		return enabled
+	}
+	return uc.caps.IsEnabled(name)
 }
 
 func (uc *upstreamConn) supportsSASL(mech string) bool {
@@ -2055,6 +2073,7 @@ func (uc *upstreamConn) requestSASL() bool {
 
 func (uc *upstreamConn) handleCapAck(ctx context.Context, name string, ok bool) error {
 	uc.caps.SetEnabled(name, ok)
+	delete(uc.pendingCaps, name)
 
 	switch name {
 	case "sasl":
@@ -2198,7 +2217,7 @@ func (uc *upstreamConn) readMessages(ch chan<- event) error {
 }
 
 func (uc *upstreamConn) SendMessage(ctx context.Context, msg *irc.Message) {
-	if !uc.caps.IsEnabled("message-tags") {
+	if !uc.isCapEnabledForOutgoing("message-tags") {
 		msg = msg.Copy()
 		msg.Tags = nil
 	}
@@ -2208,7 +2227,7 @@ func (uc *upstreamConn) SendMessage(ctx context.Context, msg *irc.Message) {
 }
 
 func (uc *upstreamConn) SendMessageLabeled(ctx context.Context, downstreamID uint64, msg *irc.Message) {
-	if uc.caps.IsEnabled("labeled-response") {
+	if uc.isCapEnabledForOutgoing("labeled-response") {
 		if msg.Tags == nil {
 			msg.Tags = make(irc.Tags)
 		}
-- 
2.43.0


From 259d86a1f790e381efe915e40a948a4c0fa2025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 67/72] fix: keep the saved credentials on other NickServ SET
 commands

---
 downstream.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index 777b25c..428318c 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3439,10 +3439,11 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 			password = params[1]
 		}
 	case "SET":
-		if len(params) == 2 && strings.EqualFold(params[0], "PASSWORD") {
-			username = nick
-			password = params[1]
+		if len(params) != 2 || !strings.EqualFold(params[0], "PASSWORD") {
+			return "", "", false
 		}
+		username = nick
+		password = params[1]
 	default:
 		return "", "", false
 	}
-- 
2.43.0


From 7a084673af04bbc911b7eb1da397515feded0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 68/72] fix: part clients from channels which won't be joined
 again

---
 user.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/user.go b/user.go
index e71bd67..f6da1ae 100644
--- a/user.go
+++ b/user.go
@@ -961,6 +961,8 @@ func (u *user) handleUpstreamDisconnected(uc *upstreamConn) {
 		uch.updateAutoDetach(0)
 	})
 
+	u.partUnsavedChannels(uc)
+
 	uc.forEachDownstream(func(dc *downstreamConn) {
 		dc.updateSupportedCaps(context.TODO())
 	})
@@ -988,6 +990,29 @@ func (u *user) handleUpstreamDisconnected(uc *upstreamConn) {
 	}
 }
 
+// partUnsavedChannels tells clients that they've left the channels which we
+// won't join again when re-connecting.
+func (u *user) partUnsavedChannels(uc *upstreamConn) {
+	// The network may have been updated or removed in the meantime
+	net := u.getNetworkByID(uc.network.ID)
+	if net == nil {
+		return
+	}
+
+	uc.channels.ForEach(func(name string, uch *upstreamChannel) {
+		if net.channels.Has(name) || (net.conn != nil && net.conn.channels.Has(name)) {
+			return
+		}
+		net.forEachDownstream(func(dc *downstreamConn) {
+			dc.SendMessage(context.TODO(), &irc.Message{
+				Prefix:  dc.prefix(),
+				Command: "PART",
+				Params:  []string{uch.Name, "Disconnected"},
+			})
+		})
+	})
+}
+
 func (u *user) notifyBouncerNetworkState(netID int64, attrs irc.Tags) {
 	// Don't send state updates for removed networks
 	found := false
-- 
2.43.0


From 79300f68aa59a12c1f86f30730d1bbcb63291f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 69/72] fix: don't let administration socket commands wait
 forever

---
 server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 23eb7c6..633c5c7 100644
--- a/server.go
+++ b/server.go
@@ -629,8 +629,11 @@ func (s *Server) HandleAdmin(ic ircConn) {
 				})
 				break
 			}
+			// The user the command is about may be stopping, or be itself
+			// waiting for another user: don't wait for it forever
+			cmdCtx, cancel := context.WithTimeout(ctx, handleDownstreamMessageTimeout)
 			err := handleServicePRIVMSG(&serviceContext{
-				Context: ctx,
+				Context: cmdCtx,
 				srv:     s,
 				admin:   true,
 				print: func(text string) {
@@ -641,6 +644,7 @@ func (s *Server) HandleAdmin(ic ircConn) {
 					})
 				},
 			}, msg.Params[0])
+			cancel()
 			if err != nil {
 				c.SendMessage(ctx, &irc.Message{
 					Prefix:  s.prefix(),
-- 
2.43.0


From fa2f59a04ebcd58769755eee03d6c100173de218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 70/72] fix: keep the case-mapping when a network is updated

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index f6da1ae..1f3ecae 100644
--- a/user.go
+++ b/user.go
@@ -1218,6 +1218,9 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	})
 
 	updatedNetwork := newNetwork(u, record, channels)
+	// Keep the case-mapping downstream connections are using until the server
+	// announces another one
+	updatedNetwork.casemap = network.casemap
 	network.delivered.m.ForEach(func(target string, clients deliveredClientMap) {
 		updatedNetwork.delivered.m.Set(target, clients)
 	})
-- 
2.43.0


From 5b448b28ff3bcef697727552b5924fce4cf6935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 71/72] fix: join saved channels from the user goroutine

---
 upstream.go | 30 ++++++++++++++++++------------
 user.go     |  4 +++-
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/upstream.go b/upstream.go
index 3f842ca..995a9ce 100644
--- a/upstream.go
+++ b/upstream.go
@@ -946,18 +946,6 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.registered = true
 		uc.serverPrefix = msg.Prefix
 		uc.logger.Printf("connection registered with nick %q", uc.nick)
-
-		if uc.network.channels.Len() > 0 {
-			var channels, keys []string
-			uc.network.channels.ForEach(func(_ string, ch *database.Channel) {
-				channels = append(channels, ch.Name)
-				keys = append(keys, ch.Key)
-			})
-
-			for _, msg := range xirc.GenerateJoin(channels, keys) {
-				uc.SendMessage(ctx, msg)
-			}
-		}
 	case irc.RPL_MYINFO:
 		if err := parseMessageParams(msg, nil, &uc.serverName, nil, &uc.availableUserModes, nil); err != nil {
 			return err
@@ -2379,6 +2367,24 @@ func (uc *upstreamConn) wantMonitor(target string) bool {
 	return want
 }
 
+// joinSavedChannels joins the channels saved for the network. It must be called
+// from the user goroutine: clients may be adding and removing channels.
+func (uc *upstreamConn) joinSavedChannels(ctx context.Context) {
+	if uc.network.channels.Len() == 0 {
+		return
+	}
+
+	var channels, keys []string
+	uc.network.channels.ForEach(func(_ string, ch *database.Channel) {
+		channels = append(channels, ch.Name)
+		keys = append(keys, ch.Key)
+	})
+
+	for _, msg := range xirc.GenerateJoin(channels, keys) {
+		uc.SendMessage(ctx, msg)
+	}
+}
+
 func (uc *upstreamConn) updateMonitor() {
 	if _, ok := uc.isupport["MONITOR"]; !ok {
 		return
diff --git a/user.go b/user.go
index 1f3ecae..d78e2cf 100644
--- a/user.go
+++ b/user.go
@@ -694,10 +694,12 @@ func (u *user) run() {
 
 			uc.network.conn = uc
 
+			ctx := context.TODO()
+			uc.joinSavedChannels(ctx)
+
 			uc.updateAway()
 			uc.updateMonitor()
 
-			ctx := context.TODO()
 			uc.forEachDownstream(func(dc *downstreamConn) {
 				dc.updateSupportedCaps(ctx)
 
-- 
2.43.0


From 7a1283066addb60bb6e7ae3035c5c9033aaeb688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 72/72] fix: don't drop messages because another client is gone

Messages are sent with the context of whoever caused them. When a client
disconnects right after a command, that context is cancelled, and
SendMessage picked randomly between queueing the message and dropping it:
other clients missed the effects of the command, and servers the client's
last messages. Queue the message if there is room for it.
---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 53b6683..fbd9eeb 100644
--- a/conn.go
+++ b/conn.go
@@ -224,6 +224,14 @@ func (c *conn) SendMessage(ctx context.Context, msg *irc.Message) {
 		return
 	}
 
+	// The context may belong to another connection which is already gone:
+	// don't drop the message if it can be queued right away
+	select {
+	case c.outgoingCh <- msg:
+		return
+	default:
+	}
+
 	select {
 	case c.outgoingCh <- msg:
 		// Success
-- 
2.43.0

