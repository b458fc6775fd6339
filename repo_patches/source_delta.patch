From 1f7e4af57281fc2272ebdaf0ee7c0aaedac7693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 01/54] fix: apply the spaces filter to rooms which match
 room_types

---
 sync3/request.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync3/request.go b/sync3/request.go
index 618e970..ecfb1eb 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -549,9 +549,8 @@ func (rf *RequestFilters) Include(r *RoomConnMetadata, finder RoomFinder) bool {
 	if nullableStringExists(rf.NotRoomTypes, r.RoomType) {
 		return false // explicitly excluded
 	}
-	if len(rf.RoomTypes) > 0 {
-		// either explicitly included or implicitly excluded
-		return nullableStringExists(rf.RoomTypes, r.RoomType)
+	if len(rf.RoomTypes) > 0 && !nullableStringExists(rf.RoomTypes, r.RoomType) {
+		return false // implicitly excluded
 	}
 	if len(rf.Spaces) > 0 {
 		// ensure this room is a member of one of these spaces
-- 
2.43.0


From 43c852d8091e6ad5118437dfbb2a79dced1b2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 02/54] fix: do not put rooms the user has left in new or
 refiltered lists

---
 sync3/lists.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sync3/lists.go b/sync3/lists.go
index 823637b..464cc53 100644
--- a/sync3/lists.go
+++ b/sync3/lists.go
@@ -233,11 +233,12 @@ func (s *InternalRequestLists) AssignList(ctx context.Context, listKey string, f
 			return s.lists[listKey], false
 		}
 	}
-	roomIDs := make([]string, len(s.allRooms))
-	i := 0
-	for roomID := range s.allRooms {
-		roomIDs[i] = roomID
-		i++
+	roomIDs := make([]string, 0, len(s.allRooms))
+	for roomID, room := range s.allRooms {
+		if room.HasLeft {
+			continue // keep in sync with SetRoom: rooms which have been left don't belong in any list
+		}
+		roomIDs = append(roomIDs, roomID)
 	}
 
 	roomList := NewFilteredSortableRooms(s, listKey, roomIDs, filters)
-- 
2.43.0


From c3d831b29560ee14232f18fe884ba4a57dcc00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 03/54] fix: remove rooms from lists when the user leaves or is
 banned, and keep them after a rejoin

HasLeft was only set by OnLeftRoom, whose update has no NID so is skipped for rooms
the connection already knows about, was not set at all on bans, and was never
reset on a rejoin. Kicks were also sent to the kicked user twice.
---
 sync3/caches/user.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index fa21cfa..388b4ae 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -600,6 +600,15 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 			urd.HighlightCount = 0
 		}
 	}
+	// keep HasLeft up-to-date: connections remove rooms from (or add rooms to) their lists based on this.
+	if eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
+		switch eventData.Content.Get("membership").Str {
+		case "join":
+			urd.HasLeft = false
+		case "leave", "ban":
+			urd.HasLeft = true
+		}
+	}
 	if eventData.EventType == "m.space.child" && eventData.StateKey != nil {
 		// the children for a space we are a part of have changed. Find the room that was affected and update our cache value.
 		childRoomID := *eventData.StateKey
@@ -650,6 +659,8 @@ func (c *UserCache) OnInvite(ctx context.Context, roomID string, inviteStateEven
 func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent json.RawMessage) {
 	urd := c.LoadRoomData(roomID)
 	wasInvite := urd.IsInvite
+	// if OnNewEvent has told connections about the leave already then don't tell them again
+	alreadyLeft := urd.HasLeft
 	urd.IsInvite = false
 	urd.HasLeft = true
 	urd.Invite = nil
@@ -688,7 +699,7 @@ func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent js
 			Sender:    sender,
 			// if this is an invite rejection/a kick we need to make sure we tell the client, and not
 			// skip it because of the lack of a NID (this event may not be in the events table)
-			AlwaysProcess: wasInvite || isKick,
+			AlwaysProcess: wasInvite || (isKick && !alreadyLeft),
 		},
 	}
 	c.emitOnRoomUpdate(ctx, up)
-- 
2.43.0


From 6e87c739e99d50227000440dded58e06ad72fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 04/54] fix: do not send m.space.child events in the timeline
 of the child room

---
 sync3/caches/user.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 388b4ae..7f2c64e 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -570,11 +570,17 @@ func (c *UserCache) OnUnreadCounts(ctx context.Context, roomID string, highlight
 
 func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID string, isDeleted bool, eventData *EventData) {
 	childURD := c.LoadRoomData(childRoomID)
+	// copy the set as connections hold on to previous versions of the UserRoomData
+	spaces := make(map[string]struct{}, len(childURD.Spaces)+1)
+	for spaceID := range childURD.Spaces {
+		spaces[spaceID] = struct{}{}
+	}
 	if isDeleted {
-		delete(childURD.Spaces, parentRoomID)
+		delete(spaces, parentRoomID)
 	} else {
-		childURD.Spaces[parentRoomID] = struct{}{}
+		spaces[parentRoomID] = struct{}{}
 	}
+	childURD.Spaces = spaces
 	c.roomToDataMu.Lock()
 	c.roomToData[childRoomID] = childURD
 	c.roomToDataMu.Unlock()
@@ -582,9 +588,14 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 	// now we need to notify connections for the _child_
 	// but only if they are allowed to see the child event (i.e they are joined to the child room)
 	if c.joinChecker.IsUserJoined(c.UserID, childRoomID) {
+		// The event is in the timeline of the _space_, so don't send it down as an event in the child
+		// room. Likewise its position is unrelated to the position in the child room.
+		childEventData := *eventData
+		childEventData.Event = nil
+		childEventData.AlwaysProcess = true
 		roomUpdate := &RoomEventUpdate{
 			RoomUpdate: c.newRoomUpdate(ctx, childRoomID),
-			EventData:  eventData,
+			EventData:  &childEventData,
 		}
 		c.emitOnRoomUpdate(ctx, roomUpdate)
 	}
-- 
2.43.0


From 90b3c153d30a5a0275a46bb67ada57eaf6672e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:53 +0000
Subject: [PATCH 05/54] fix: send correct list operations and room data when a
 room is removed from a list

Removing the last room of a list could panic or leave a stale room in the window,
rooms shifted into the window had no room data and null operations could be sent.
---
 sync3/ops.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sync3/ops.go b/sync3/ops.go
index 9f05119..48eab92 100644
--- a/sync3/ops.go
+++ b/sync3/ops.go
@@ -58,11 +58,18 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 		list.Remove(roomID)
 		// no need to resort here, everything is in the right order already and just needs a shift
 		// there will be no toIndex, set it to the end of the array
-		toIndex = int(list.Len()) - 1
-		if toIndex == -1 {
-			// we are removing the last element of the list
-			ops = append(ops, reqList.WriteDeleteOp(0))
-			return
+		vacatedIndex := int(list.Len()) // the index position which no longer has a room
+		toIndex = vacatedIndex - 1
+		_, isToInsideRange := reqList.Ranges.Inside(int64(toIndex))
+		if fromIndex == vacatedIndex || !isToInsideRange {
+			// we either removed the last element of the list or shifted the last element out of a range.
+			// This isn't covered by the move operations below so tell clients explicitly.
+			if deleteOp := reqList.WriteDeleteOp(vacatedIndex); deleteOp != nil {
+				ops = append(ops, deleteOp)
+			}
+		}
+		if fromIndex == vacatedIndex {
+			return // nothing needs shifting
 		}
 	case ListOpChange:
 		// this should only move exactly 1 room at most as this is called for every single update
@@ -110,9 +117,9 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 		ops = append(ops, swapOp...)
 
 		addedSub := false
-		// if a different room is being inserted or the room wasn't previously inside a range, send
-		// the entire room data
-		if !wasUpdatedRoomInserted || !wasInsideRange {
+		// if a different room is being inserted (which is always the case for deletions) or the room
+		// wasn't previously inside a range, send the entire room data
+		if !wasUpdatedRoomInserted || !wasInsideRange || listOp == ListOpDel {
 			subs = append(subs, toRoomID)
 			addedSub = true
 		}
-- 
2.43.0


From ee8c26f29d05905a1fd9c1d6ddca030778baa039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:16 +0000
Subject: [PATCH 06/54] fix: do not send data for rooms the user has left since
 the connection last caught up

If a connection had not consumed the update for a leave, kick or revoked invite yet
then rooms coming into the window were sent with their current state.
---
 sync3/handler/connstate.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index c71a86d..3c28a57 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -577,14 +577,6 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 		}
 		roomToUsersInTimeline[roomID] = internal.Keys(senders)
 		roomToTimeline[roomID] = latestEvents.Timeline
-		// remember what we just loaded so if we see these events down the live stream we know to ignore them.
-		// This means that requesting a direct room subscription causes the connection to jump ahead to whatever
-		// is in the database at the time of the call, rather than gradually converging by consuming live data.
-		// This is fine, so long as we jump ahead on a per-room basis. We need to make sure (ideally) that the
-		// room state is also pinned to the load position here, else you could see weird things in individual
-		// responses such as an updated room.name without the associated m.room.name event (though this will
-		// come through on the next request -> it converges to the right state so it isn't critical).
-		s.loadPositions[roomID] = latestEvents.LatestNID
 	}
 	roomToTimeline = s.userCache.AnnotateWithTransactionIDs(ctx, s.userID, s.deviceID, roomToTimeline)
 
@@ -623,6 +615,23 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 		if !ok {
 			userRoomData = caches.NewUserRoomData()
 		}
+		// The user may have left this room (or had their invite revoked) but this connection may not have
+		// consumed that update yet, in which case it still thinks the room should be sent to the client.
+		// Don't send anything as the user is not allowed to see the current room data. We check this AFTER
+		// loading the data so there is no window in which the user can leave unnoticed.
+		if !userRoomData.IsInvite && !s.joinChecker.IsUserJoined(s.userID, roomID) {
+			continue
+		}
+		// remember what we just loaded so if we see these events down the live stream we know to ignore them.
+		// This means that requesting a direct room subscription causes the connection to jump ahead to whatever
+		// is in the database at the time of the call, rather than gradually converging by consuming live data.
+		// This is fine, so long as we jump ahead on a per-room basis. We need to make sure (ideally) that the
+		// room state is also pinned to the load position here, else you could see weird things in individual
+		// responses such as an updated room.name without the associated m.room.name event (though this will
+		// come through on the next request -> it converges to the right state so it isn't critical).
+		if latestEvents, ok := timelines[roomID]; ok {
+			s.loadPositions[roomID] = latestEvents.LatestNID
+		}
 		metadata := roomMetadatas[roomID]
 		var inviteState []json.RawMessage
 		// handle invites specially as we do not want to leak additional data beyond the invite_state and if
-- 
2.43.0


From 53d9f8be477f609e9f932965bb31f58918393096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:16 +0000
Subject: [PATCH 07/54] fix: do not forget which events were sent when room
 data without a timeline is sent

---
 sync3/handler/connstate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 3c28a57..7a7a8d8 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -629,7 +629,8 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 		// room state is also pinned to the load position here, else you could see weird things in individual
 		// responses such as an updated room.name without the associated m.room.name event (though this will
 		// come through on the next request -> it converges to the right state so it isn't critical).
-		if latestEvents, ok := timelines[roomID]; ok {
+		// Never go backwards: there may not be any timeline events if the timeline limit is 0.
+		if latestEvents, ok := timelines[roomID]; ok && latestEvents.LatestNID > s.loadPositions[roomID] {
 			s.loadPositions[roomID] = latestEvents.LatestNID
 		}
 		metadata := roomMetadatas[roomID]
-- 
2.43.0


From 1c53153370e69ad68f092a817ed0156fbe438387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:36 +0000
Subject: [PATCH 08/54] fix: SYNC/INVALIDATE list ranges which contain a single
 room when ranges change

---
 sync3/range.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/sync3/range.go b/sync3/range.go
index d4823d4..2ad9fd9 100644
--- a/sync3/range.go
+++ b/sync3/range.go
@@ -286,11 +286,6 @@ func (r SliceRanges) SliceInto(slice Subslicer) []Subslicer {
 // is an open not a close. We don't care if these points are old or new, as that just determines whether
 // they were added or removed, it doesn't change the range logic.
 func createRange(point, lastPoint *pointInfo, lastMergedRange *[2]int64) *[2]int64 {
-	if point.x <= lastPoint.x {
-		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`
-		return nil
-	}
-
 	// we assume we include the last point (i,e it's closing a range after all) but there are edge cases
 	// where we dont
 	start := lastPoint.x
@@ -305,17 +300,17 @@ func createRange(point, lastPoint *pointInfo, lastMergedRange *[2]int64) *[2]int
 		start += 1
 	}
 
+	// 'point' is a close so needs to include itself
+	end := point.x
 	if point.isOpen {
 		// do -1 if 'point' is an open as it will make its own range and we don't want dupes
-		return &[2]int64{
-			start, point.x - 1,
-		}
-	} else {
-		// 'point' is a close so needs to include itself
-		return &[2]int64{
-			start, point.x,
-		}
+		end -= 1
+	}
+	if end < start {
+		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`
+		return nil
 	}
+	return &[2]int64{start, end}
 }
 
 func sortPoints(points []pointInfo) {
-- 
2.43.0


From 129167ddd8420176e2e76b0930a9bedd8f6377ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:16 +0000
Subject: [PATCH 09/54] fix: send room account data for rooms which move into
 the window, and not for a room with no ID

---
 sync3/extensions/account_data.go | 41 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index a84d7f2..71aad2b 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -52,26 +52,31 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 			roomToMsgs[update.RoomID()] = accountEventsAsJSON(update.AccountData)
 		}
 	case caches.RoomUpdate:
-		if !r.RoomInScope(update.RoomID(), extCtx) {
-			return
-		}
-		// if this is a room update which is included in the response, send account data for this room
-		if _, exists := extCtx.RoomIDToTimeline[update.RoomID()]; exists {
+		// if there are rooms included in the response, send account data for them. This isn't just the room
+		// this update is for, as updates can move other rooms into the window.
+		var roomIDs []string
+		for roomID := range extCtx.RoomIDToTimeline {
 			// ..but only if we haven't before
-			if res.AccountData != nil && res.AccountData.loadedRooms[update.RoomID()] {
+			if res.AccountData != nil && res.AccountData.loadedRooms[roomID] {
 				// we've loaded this room before, don't do it again
 				// this can happen when we consume lots of items in the buffer. If many of them are room updates
 				// for the same room, we could send dupe room account data if we didn't do this check.
-				return
+				continue
+			}
+			if r.RoomInScope(roomID, extCtx) {
+				roomIDs = append(roomIDs, roomID)
 			}
-			roomAccountData, err := extCtx.Store.AccountDatas(extCtx.UserID, update.RoomID())
-			if err != nil {
-				logger.Err(err).Str("user", extCtx.UserID).Str("room", update.RoomID()).Msg("failed to fetch room account data")
-				internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
-			} else {
-				if len(roomAccountData) > 0 { // else we can end up with `null` not `[]`
-					roomToMsgs[update.RoomID()] = accountEventsAsJSON(roomAccountData)
-				}
+		}
+		if len(roomIDs) == 0 {
+			return
+		}
+		roomAccountData, err := extCtx.Store.AccountDatas(extCtx.UserID, roomIDs...)
+		if err != nil {
+			logger.Err(err).Str("user", extCtx.UserID).Strs("rooms", roomIDs).Msg("failed to fetch room account data")
+			internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
+		} else {
+			for _, ad := range roomAccountData {
+				roomToMsgs[ad.RoomID] = append(roomToMsgs[ad.RoomID], ad.Data)
 			}
 		}
 	}
@@ -92,12 +97,10 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 }
 
 func (r *AccountDataRequest) ProcessInitial(ctx context.Context, res *Response, extCtx Context) {
-	roomIDs := make([]string, len(extCtx.RoomIDToTimeline))
-	i := 0
+	roomIDs := make([]string, 0, len(extCtx.RoomIDToTimeline))
 	for roomID := range extCtx.RoomIDToTimeline {
 		if r.RoomInScope(roomID, extCtx) {
-			roomIDs[i] = roomID
-			i++
+			roomIDs = append(roomIDs, roomID)
 		}
 	}
 	extRes := &AccountDataResponse{
-- 
2.43.0


From 53ecb98ad6d99e900cfdecbdf3a15494d302bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:58 +0000
Subject: [PATCH 10/54] fix: include everything asked for when initial room
 data is replaced within a response

---
 sync3/handler/connstate.go      | 5 +++++
 sync3/handler/connstate_live.go | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 7a7a8d8..4cacfce 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -42,6 +42,9 @@ type ConnState struct {
 	anchorLoadPosition int64
 	// roomID -> latest load pos
 	loadPositions map[string]int64
+	// roomID -> the subscription used to produce the initial room data in the current response.
+	// Reset at the start of each request.
+	initialSubs map[string]sync3.RoomSubscription
 
 	txnIDWaiter *TxnIDWaiter
 	live        *connStateLive
@@ -193,6 +196,7 @@ func (s *ConnState) OnIncomingRequest(ctx context.Context, cid sync3.ConnID, req
 // additional locking mechanisms.
 func (s *ConnState) onIncomingRequest(reqCtx context.Context, req *sync3.Request, isInitial bool) (*sync3.Response, error) {
 	start := time.Now()
+	s.initialSubs = make(map[string]sync3.RoomSubscription)
 	// ApplyDelta works fine if s.muxedReq is nil
 	var delta *sync3.RequestDelta
 	s.muxedReq, delta = s.muxedReq.ApplyDelta(req)
@@ -518,6 +522,7 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 		rooms := s.getInitialRoomData(ctx, bs.RoomSubscription, bumpEventTypes, roomIDs...)
 		for roomID, room := range rooms {
 			result[roomID] = room
+			s.initialSubs[roomID] = bs.RoomSubscription
 		}
 	}
 	return result
diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 70da78d..803c531 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -183,7 +183,13 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 
 	// add in initial rooms FIRST as we replace whatever is in the rooms key for these rooms.
 	// If we do it after appending live updates then we can lose updates because we replace what
-	// we accumulated.
+	// we accumulated. This also means that we need to include what was asked for in any initial room data
+	// we are about to replace.
+	for roomID, sub := range s.initialSubs {
+		if builder.IncludesRoom(roomID) {
+			builder.AddRoomsToSubscription(ctx, builder.AddSubscription(sub), []string{roomID})
+		}
+	}
 	rooms := s.buildRooms(ctx, builder.BuildSubscriptions())
 	for roomID, room := range rooms {
 		response.Rooms[roomID] = room
-- 
2.43.0


From 5eced37dbd38a497b3082c4c5e3883baedd23d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:58 +0000
Subject: [PATCH 11/54] fix: retire invites when the invited user is banned

---
 sync2/poller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index e3e4839..ed35409 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -900,7 +900,8 @@ func (p *poller) parseRoomsResponse(ctx context.Context, res *SyncResponse) erro
 		var leaveEvent json.RawMessage
 		for _, ev := range roomData.Timeline.Events {
 			leaveEv := gjson.ParseBytes(ev)
-			if leaveEv.Get("content.membership").Str == "leave" && leaveEv.Get("state_key").Str == p.userID {
+			membership := leaveEv.Get("content.membership").Str
+			if (membership == "leave" || membership == "ban") && leaveEv.Get("state_key").Str == p.userID {
 				leaveEvent = ev
 				break
 			}
-- 
2.43.0


From 7991a6e2b1af99b8cc12c3bfdb50758b7f02f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:04 +0000
Subject: [PATCH 12/54] fix: do not drop events which are seen after an invite
 was rejected

---
 sync2/poller.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index ed35409..cb6ffc8 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -887,7 +887,10 @@ func (p *poller) parseRoomsResponse(ctx context.Context, res *SyncResponse) erro
 		}
 	}
 	for roomID, roomData := range res.Rooms.Leave {
-		if len(roomData.Timeline.Events) > 0 {
+		// Don't accumulate invite rejections: this user was never in the room so the leave event is not accompanied by the
+		// events before it. If we persisted it then those events would be mistaken for old events and dropped when they
+		// arrive via pollers for joined users, who will also be sent this leave event.
+		if len(roomData.Timeline.Events) > 0 && !isInviteRejection(p.userID, roomData.Timeline.Events) {
 			p.trackTimelineSize(len(roomData.Timeline.Events), roomData.Timeline.Limited)
 			err := p.receiver.Accumulate(ctx, p.userID, p.deviceID, roomID, roomData.Timeline)
 			if err != nil {
@@ -999,3 +1002,14 @@ func (p *poller) trackGappyStateSize(size int) {
 	}
 	p.gappyStateSizeVec.WithLabelValues().Observe(float64(size))
 }
+
+// isInviteRejection returns true if this timeline from the leave section consists solely of userID's invite being
+// rejected or revoked.
+func isInviteRejection(userID string, timeline []json.RawMessage) bool {
+	if len(timeline) != 1 {
+		return false
+	}
+	ev := gjson.ParseBytes(timeline[0])
+	return ev.Get("type").Str == "m.room.member" && ev.Get("state_key").Str == userID &&
+		ev.Get("unsigned.prev_content.membership").Str == "invite"
+}
-- 
2.43.0


From 564975e60bcfff94ce8cd81d08dccf3a6001d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:02 +0000
Subject: [PATCH 13/54] fix: do not send typing notifications for rooms the
 user is only invited to

---
 sync3/extensions/extensions.go | 2 ++
 sync3/extensions/typing.go     | 3 +++
 sync3/handler/connstate.go     | 7 +++++++
 3 files changed, 12 insertions(+)

diff --git a/sync3/extensions/extensions.go b/sync3/extensions/extensions.go
index 4eebd4c..ed86c8b 100644
--- a/sync3/extensions/extensions.go
+++ b/sync3/extensions/extensions.go
@@ -287,6 +287,8 @@ type Context struct {
 	// oldest to newest, as determined by the core sliding sync protocol.
 	// TODO: can the timelines be "gappy" like a v2 sync timeline?
 	RoomIDToTimeline map[string][]string
+	// InvitedRooms is the set of rooms in RoomIDToTimeline which the user is invited to but hasn't joined.
+	InvitedRooms map[string]struct{}
 	// IsInitial is true if this sync is requesting a snapshot of current client state
 	// (pos = 0, "initial sync") and false otherwise (pos > 0, "incremental sync").
 	IsInitial bool
diff --git a/sync3/extensions/typing.go b/sync3/extensions/typing.go
index 286f277..b88614e 100644
--- a/sync3/extensions/typing.go
+++ b/sync3/extensions/typing.go
@@ -74,6 +74,9 @@ func (r *TypingRequest) ProcessInitial(ctx context.Context, res *Response, extCt
 	}
 	roomToGlobalMetadata := extCtx.GlobalCache.LoadRooms(ctx, roomIDs...)
 	for roomID := range extCtx.RoomIDToTimeline {
+		if _, invited := extCtx.InvitedRooms[roomID]; invited {
+			continue // the user cannot see who is typing until they join
+		}
 		meta := roomToGlobalMetadata[roomID]
 		if meta == nil || meta.TypingEvent == nil {
 			continue
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 4cacfce..97ff692 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -229,11 +229,18 @@ func (s *ConnState) onIncomingRequest(reqCtx context.Context, req *sync3.Request
 
 	// Handle extensions AFTER processing lists as extensions may need to know which rooms the client
 	// is being notified about (e.g. for room account data)
+	invitedRooms := make(map[string]struct{})
+	for roomID := range response.Rooms {
+		if s.userCache.LoadRoomData(roomID).IsInvite {
+			invitedRooms[roomID] = struct{}{}
+		}
+	}
 	extCtx, region := internal.StartSpan(reqCtx, "extensions")
 	response.Extensions = s.extensionsHandler.Handle(extCtx, s.muxedReq.Extensions, extensions.Context{
 		UserID:             s.userID,
 		DeviceID:           s.deviceID,
 		RoomIDToTimeline:   response.RoomIDsToTimelineEventIDs(),
+		InvitedRooms:       invitedRooms,
 		IsInitial:          isInitial,
 		RoomIDsToLists:     s.lists.ListsByVisibleRoomIDs(s.muxedReq.Lists),
 		AllSubscribedRooms: internal.Keys(s.roomSubscriptions),
-- 
2.43.0


From c961134bd6899c1ed5303af0a582d8188a7f0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:04 +0000
Subject: [PATCH 14/54] fix: do not tell users about kicks and invite
 rejections twice

---
 sync3/caches/user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 7f2c64e..b27f73e 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -617,6 +617,9 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 		case "join":
 			urd.HasLeft = false
 		case "leave", "ban":
+			if urd.HasLeft {
+				return // OnLeftRoom has told connections about this already
+			}
 			urd.HasLeft = true
 		}
 	}
-- 
2.43.0


From f19cc1077da33c1e545ce6ec342c5ce087b0b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:04 +0000
Subject: [PATCH 15/54] fix: include everything asked for by any list or
 subscription in rooms which come into a window

---
 sync3/handler/connstate.go      |  5 -----
 sync3/handler/connstate_live.go | 31 ++++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 97ff692..a4d87d8 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -42,9 +42,6 @@ type ConnState struct {
 	anchorLoadPosition int64
 	// roomID -> latest load pos
 	loadPositions map[string]int64
-	// roomID -> the subscription used to produce the initial room data in the current response.
-	// Reset at the start of each request.
-	initialSubs map[string]sync3.RoomSubscription
 
 	txnIDWaiter *TxnIDWaiter
 	live        *connStateLive
@@ -196,7 +193,6 @@ func (s *ConnState) OnIncomingRequest(ctx context.Context, cid sync3.ConnID, req
 // additional locking mechanisms.
 func (s *ConnState) onIncomingRequest(reqCtx context.Context, req *sync3.Request, isInitial bool) (*sync3.Response, error) {
 	start := time.Now()
-	s.initialSubs = make(map[string]sync3.RoomSubscription)
 	// ApplyDelta works fine if s.muxedReq is nil
 	var delta *sync3.RequestDelta
 	s.muxedReq, delta = s.muxedReq.ApplyDelta(req)
@@ -529,7 +525,6 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 		rooms := s.getInitialRoomData(ctx, bs.RoomSubscription, bumpEventTypes, roomIDs...)
 		for roomID, room := range rooms {
 			result[roomID] = room
-			s.initialSubs[roomID] = bs.RoomSubscription
 		}
 	}
 	return result
diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 803c531..efbf53f 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -183,13 +183,9 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 
 	// add in initial rooms FIRST as we replace whatever is in the rooms key for these rooms.
 	// If we do it after appending live updates then we can lose updates because we replace what
-	// we accumulated. This also means that we need to include what was asked for in any initial room data
-	// we are about to replace.
-	for roomID, sub := range s.initialSubs {
-		if builder.IncludesRoom(roomID) {
-			builder.AddRoomsToSubscription(ctx, builder.AddSubscription(sub), []string{roomID})
-		}
-	}
+	// we accumulated. This also means that the initial data needs to include everything which was asked for
+	// in these rooms, and not just by the list which the room has just come into the window of.
+	s.addExistingSubscriptions(ctx, builder)
 	rooms := s.buildRooms(ctx, builder.BuildSubscriptions())
 	for roomID, room := range rooms {
 		response.Rooms[roomID] = room
@@ -314,6 +310,27 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 	return hasUpdates
 }
 
+// addExistingSubscriptions adds the subscriptions of every list and room subscription which applies to the rooms in this builder.
+func (s *connStateLive) addExistingSubscriptions(ctx context.Context, builder *RoomsBuilder) {
+	if len(builder.subToRooms) == 0 {
+		return
+	}
+	for roomID, listKeys := range s.lists.ListsByVisibleRoomIDs(s.muxedReq.Lists) {
+		if !builder.IncludesRoom(roomID) {
+			continue
+		}
+		for _, listKey := range listKeys {
+			subID := builder.AddSubscription(s.muxedReq.Lists[listKey].RoomSubscription)
+			builder.AddRoomsToSubscription(ctx, subID, []string{roomID})
+		}
+	}
+	for roomID, sub := range s.roomSubscriptions {
+		if builder.IncludesRoom(roomID) {
+			builder.AddRoomsToSubscription(ctx, builder.AddSubscription(sub), []string{roomID})
+		}
+	}
+}
+
 func (s *connStateLive) processUpdatesForSubscriptions(ctx context.Context, builder *RoomsBuilder, up caches.Update) (hasUpdates bool) {
 	rup, ok := up.(caches.RoomUpdate)
 	if !ok {
-- 
2.43.0


From 721b0b90866960c70977876d98719213ed9a7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:04 +0000
Subject: [PATCH 16/54] fix: keep include_old_rooms and include_heroes when
 combining room subscriptions

---
 sync3/request.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sync3/request.go b/sync3/request.go
index ecfb1eb..39c33c8 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -611,7 +611,12 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 		result.TimelineLimit = other.TimelineLimit
 	}
 	// combine together required_state fields, we'll union them later
-	result.RequiredState = append(rs.RequiredState, other.RequiredState...)
+	result.RequiredState = append(append([][2]string(nil), rs.RequiredState...), other.RequiredState...)
+	// include heroes if either of them wants heroes
+	result.Heroes = rs.Heroes
+	if !rs.IncludeHeroes() && other.Heroes != nil {
+		result.Heroes = other.Heroes
+	}
 
 	if checkOldRooms {
 		// set include_old_rooms if it is unset
@@ -621,6 +626,8 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 			// 2 subs have include_old_rooms set, union them. Don't check them for old rooms though as that's silly
 			ior := rs.IncludeOldRooms.combineRecursive(*other.IncludeOldRooms, false)
 			result.IncludeOldRooms = &ior
+		} else {
+			result.IncludeOldRooms = rs.IncludeOldRooms
 		}
 	}
 	return result
-- 
2.43.0


From a0e6b81f53f0e892e8e61c00e0706f356820906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:23 +0000
Subject: [PATCH 17/54] fix: send initial room data to subscribed clients when
 the user rejoins the room

---
 sync3/handler/connstate_live.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index efbf53f..0e8bfe1 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -336,8 +336,12 @@ func (s *connStateLive) processUpdatesForSubscriptions(ctx context.Context, buil
 	if !ok {
 		return false
 	}
-	// if we have an existing confirmed subscription for this room, then there's nothing to do.
-	if _, exists := s.roomSubscriptions[rup.RoomID()]; exists {
+	// if we have an existing confirmed subscription for this room, then there's nothing to do unless the user has
+	// rejoined the room, in which case we need to send the state which changed whilst they weren't joined.
+	if sub, exists := s.roomSubscriptions[rup.RoomID()]; exists {
+		if roomEventUpdate, ok := up.(*caches.RoomEventUpdate); ok && roomEventUpdate.EventData.ForceInitial {
+			builder.AddRoomsToSubscription(ctx, builder.AddSubscription(sub), []string{rup.RoomID()})
+		}
 		return true // this room exists as a subscription so we'll handle it correctly
 	}
 	// did the client ask to subscribe to this room?
-- 
2.43.0


From 216c4e79f7620ce36fb7713fee9eeece0a75df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:25 +0000
Subject: [PATCH 18/54] fix: do not send receipts for rooms the user is only
 invited to

---
 sync3/extensions/receipts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync3/extensions/receipts.go b/sync3/extensions/receipts.go
index cf5be0d..49726ff 100644
--- a/sync3/extensions/receipts.go
+++ b/sync3/extensions/receipts.go
@@ -92,6 +92,9 @@ func (r *ReceiptsRequest) ProcessInitial(ctx context.Context, res *Response, ext
 		if !r.RoomInScope(roomID, extCtx) {
 			continue
 		}
+		if _, invited := extCtx.InvitedRooms[roomID]; invited {
+			continue // the user cannot see receipts until they join
+		}
 		receipts, err := extCtx.Store.ReceiptTable.SelectReceiptsForEvents(roomID, timeline)
 		if err != nil {
 			logger.Err(err).Str("user", extCtx.UserID).Str("room", roomID).Msg("failed to SelectReceiptsForEvents")
-- 
2.43.0


From d444c14694caf4293ca85d643854aba1763de364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:04 +0000
Subject: [PATCH 19/54] fix: send all account data of rooms which room account
 data moves into the window

---
 sync3/extensions/account_data.go | 77 +++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index 71aad2b..4354c5c 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -43,44 +43,24 @@ func accountEventsAsJSON(events []state.AccountData) []json.RawMessage {
 
 func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extCtx Context, up caches.Update) {
 	var globalMsgs []json.RawMessage
-	roomToMsgs := map[string][]json.RawMessage{}
+	var roomToMsgs map[string][]json.RawMessage // all the account data of rooms which are new in this response
+	var updateMsgs []json.RawMessage            // the account data which was updated
+	var updateRoomID string
 	switch update := up.(type) {
 	case *caches.AccountDataUpdate:
 		globalMsgs = accountEventsAsJSON(update.AccountData)
 	case *caches.RoomAccountDataUpdate:
-		if r.RoomInScope(update.RoomID(), extCtx) {
-			roomToMsgs[update.RoomID()] = accountEventsAsJSON(update.AccountData)
+		// this update can also have moved rooms into the window
+		roomToMsgs = r.loadNewRooms(ctx, res, extCtx)
+		_, alreadyLoaded := roomToMsgs[update.RoomID()]
+		if !alreadyLoaded && r.RoomInScope(update.RoomID(), extCtx) {
+			updateMsgs = accountEventsAsJSON(update.AccountData)
+			updateRoomID = update.RoomID()
 		}
 	case caches.RoomUpdate:
-		// if there are rooms included in the response, send account data for them. This isn't just the room
-		// this update is for, as updates can move other rooms into the window.
-		var roomIDs []string
-		for roomID := range extCtx.RoomIDToTimeline {
-			// ..but only if we haven't before
-			if res.AccountData != nil && res.AccountData.loadedRooms[roomID] {
-				// we've loaded this room before, don't do it again
-				// this can happen when we consume lots of items in the buffer. If many of them are room updates
-				// for the same room, we could send dupe room account data if we didn't do this check.
-				continue
-			}
-			if r.RoomInScope(roomID, extCtx) {
-				roomIDs = append(roomIDs, roomID)
-			}
-		}
-		if len(roomIDs) == 0 {
-			return
-		}
-		roomAccountData, err := extCtx.Store.AccountDatas(extCtx.UserID, roomIDs...)
-		if err != nil {
-			logger.Err(err).Str("user", extCtx.UserID).Strs("rooms", roomIDs).Msg("failed to fetch room account data")
-			internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
-		} else {
-			for _, ad := range roomAccountData {
-				roomToMsgs[ad.RoomID] = append(roomToMsgs[ad.RoomID], ad.Data)
-			}
-		}
+		roomToMsgs = r.loadNewRooms(ctx, res, extCtx)
 	}
-	if len(globalMsgs) == 0 && len(roomToMsgs) == 0 {
+	if len(globalMsgs) == 0 && len(roomToMsgs) == 0 && len(updateMsgs) == 0 {
 		return
 	}
 	if res.AccountData == nil {
@@ -94,6 +74,41 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 		res.AccountData.Rooms[roomID] = append(res.AccountData.Rooms[roomID], roomAccountData...)
 		res.AccountData.loadedRooms[roomID] = true
 	}
+	if len(updateMsgs) > 0 {
+		res.AccountData.Rooms[updateRoomID] = append(res.AccountData.Rooms[updateRoomID], updateMsgs...)
+	}
+}
+
+// loadNewRooms returns the account data for rooms which are included in the response. This isn't just the room
+// an update is for, as updates can move other rooms into the window.
+func (r *AccountDataRequest) loadNewRooms(ctx context.Context, res *Response, extCtx Context) map[string][]json.RawMessage {
+	var roomIDs []string
+	for roomID := range extCtx.RoomIDToTimeline {
+		// ..but only if we haven't before
+		if res.AccountData != nil && res.AccountData.loadedRooms[roomID] {
+			// we've loaded this room before, don't do it again
+			// this can happen when we consume lots of items in the buffer. If many of them are room updates
+			// for the same room, we could send dupe room account data if we didn't do this check.
+			continue
+		}
+		if r.RoomInScope(roomID, extCtx) {
+			roomIDs = append(roomIDs, roomID)
+		}
+	}
+	if len(roomIDs) == 0 {
+		return nil
+	}
+	roomAccountData, err := extCtx.Store.AccountDatas(extCtx.UserID, roomIDs...)
+	if err != nil {
+		logger.Err(err).Str("user", extCtx.UserID).Strs("rooms", roomIDs).Msg("failed to fetch room account data")
+		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
+		return nil
+	}
+	roomToMsgs := make(map[string][]json.RawMessage)
+	for _, ad := range roomAccountData {
+		roomToMsgs[ad.RoomID] = append(roomToMsgs[ad.RoomID], ad.Data)
+	}
+	return roomToMsgs
 }
 
 func (r *AccountDataRequest) ProcessInitial(ctx context.Context, res *Response, extCtx Context) {
-- 
2.43.0


From 9bc8962b44ee7be169d7730a9b64762cf27ce6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:04 +0000
Subject: [PATCH 20/54] fix: count users who were invited before a restart in
 invited_count

---
 state/storage.go         | 32 ++++++++++++++++++++++++++++++--
 sync3/dispatcher.go      |  8 ++++++++
 sync3/handler/handler.go |  1 +
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/state/storage.go b/state/storage.go
index 0d0faa7..e771e14 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -32,8 +32,9 @@ const MaxPostgresParameters = 65535
 
 // StartupSnapshot represents a snapshot of startup data for the sliding sync HTTP API instances
 type StartupSnapshot struct {
-	GlobalMetadata   map[string]internal.RoomMetadata // room_id -> metadata
-	AllJoinedMembers map[string][]string              // room_id -> [user_id]
+	GlobalMetadata    map[string]internal.RoomMetadata // room_id -> metadata
+	AllJoinedMembers  map[string][]string              // room_id -> [user_id]
+	AllInvitedMembers map[string][]string              // room_id -> [user_id]
 }
 
 type LatestEvents struct {
@@ -192,6 +193,12 @@ func (s *Storage) GlobalSnapshot() (ss StartupSnapshot, err error) {
 			sentry.CaptureException(err)
 			return err
 		}
+		ss.AllInvitedMembers, err = s.allInvitedMembers(txn, tempTableName)
+		if err != nil {
+			err = fmt.Errorf("GlobalSnapshot: failed to call allInvitedMembers: %w", err)
+			sentry.CaptureException(err)
+			return err
+		}
 		err = s.MetadataForAllRooms(txn, tempTableName, metadata)
 		if err != nil {
 			err = fmt.Errorf("GlobalSnapshot: failed to call MetadataForAllRooms: %w", err)
@@ -431,6 +438,27 @@ func (s *Storage) FetchMemberships(roomID string) (joins, invites, leaves []stri
 	return
 }
 
+// Extract all invited users in all rooms, using the temp table made by PrepareSnapshot.
+func (s *Storage) allInvitedMembers(txn *sqlx.Tx, tempTableName string) (map[string][]string, error) {
+	rows, err := txn.Query(
+		`SELECT room_id, state_key FROM ` + tempTableName + ` INNER JOIN syncv3_events
+		on membership_nid = event_nid WHERE membership='invite' OR membership='_invite'`,
+	)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	invitedMembers := make(map[string][]string)
+	var roomID, stateKey string
+	for rows.Next() {
+		if err := rows.Scan(&roomID, &stateKey); err != nil {
+			return nil, err
+		}
+		invitedMembers[roomID] = append(invitedMembers[roomID], stateKey)
+	}
+	return invitedMembers, rows.Err()
+}
+
 // Returns all current NOT MEMBERSHIP state events matching the event types given in all rooms. Returns a map of
 // room ID to events in that room.
 func (s *Storage) currentNotMembershipStateEventsInAllRooms(txn *sqlx.Tx, eventTypes []string) (map[string][]Event, error) {
diff --git a/sync3/dispatcher.go b/sync3/dispatcher.go
index a7bb24b..15a35f9 100644
--- a/sync3/dispatcher.go
+++ b/sync3/dispatcher.go
@@ -55,6 +55,14 @@ func (d *Dispatcher) Startup(roomToJoinedUsers map[string][]string) error {
 	return nil
 }
 
+// Load invited members into the dispatcher, so invite counts are right.
+// MUST BE CALLED BEFORE V2 POLL LOOPS START.
+func (d *Dispatcher) StartupInvites(roomToInvitedUsers map[string][]string) {
+	for roomID, userIDs := range roomToInvitedUsers {
+		d.jrt.UsersInvitedToRoom(userIDs, roomID)
+	}
+}
+
 func (d *Dispatcher) Unregister(userID string) {
 	d.userToReceiverMu.Lock()
 	defer d.userToReceiverMu.Unlock()
diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 9ab0db7..8834cf7 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -109,6 +109,7 @@ func (h *SyncLiveHandler) Startup(storeSnapshot *state.StartupSnapshot) error {
 	if err := h.Dispatcher.Startup(storeSnapshot.AllJoinedMembers); err != nil {
 		return fmt.Errorf("failed to load sync3.Dispatcher: %s", err)
 	}
+	h.Dispatcher.StartupInvites(storeSnapshot.AllInvitedMembers)
 	h.Dispatcher.Register(context.Background(), sync3.DispatcherAllUsers, h.GlobalCache)
 	if err := h.GlobalCache.Startup(storeSnapshot.GlobalMetadata); err != nil {
 		return fmt.Errorf("failed to populate global cache: %s", err)
-- 
2.43.0


From 1c9823d06c34f01ac19feb6e85a0dd136a173e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:26 +0000
Subject: [PATCH 21/54] fix: do not lose updates which arrive whilst a user
 cache is being created

---
 sync3/handler/handler.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 8834cf7..82ded25 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -54,7 +54,9 @@ type SyncLiveHandler struct {
 	// but the v3 requests touch non-overlapping keys, which is a good use case for sync.Map
 	// > (2) when multiple goroutines read, write, and overwrite entries for disjoint sets of keys.
 	userCaches *sync.Map // map[user_id]*UserCache
-	Dispatcher *sync3.Dispatcher
+	// held for reading whilst a user cache is being created. See userCacheForUpdate.
+	userCachesMu sync.RWMutex
+	Dispatcher   *sync3.Dispatcher
 
 	GlobalCache            *caches.GlobalCache
 	maxPendingEventUpdates int
@@ -529,6 +531,8 @@ func (h *SyncLiveHandler) userCache(userID string) (*caches.UserCache, error) {
 	if ok {
 		return c.(*caches.UserCache), nil
 	}
+	h.userCachesMu.RLock()
+	defer h.userCachesMu.RUnlock()
 	uc := caches.NewUserCache(userID, h.GlobalCache, h.Storage, h, h.Dispatcher)
 	// select all non-zero highlight or notif counts and set them, as this is less costly than looping every room/user pair
 	err := h.Storage.UnreadTable.SelectAllNonZeroCountsForUser(userID, func(roomID string, highlightCount, notificationCount int) {
@@ -588,6 +592,19 @@ func (h *SyncLiveHandler) userCache(userID string) (*caches.UserCache, error) {
 	return uc, nil
 }
 
+// userCacheForUpdate returns the cache for this user, if there is one, in order to apply an update which
+// has already been written to the database. This waits for caches which are currently being created,
+// because they may have read the database before the update was written to it.
+func (h *SyncLiveHandler) userCacheForUpdate(userID string) (*caches.UserCache, bool) {
+	h.userCachesMu.Lock()
+	defer h.userCachesMu.Unlock()
+	c, ok := h.userCaches.Load(userID)
+	if !ok {
+		return nil, false
+	}
+	return c.(*caches.UserCache), true
+}
+
 // Implements E2EEFetcher
 // DeviceData returns the latest device data for this user. isInitial should be set if this is for
 // an initial /sync request.
@@ -696,11 +713,11 @@ func (h *SyncLiveHandler) Initialise(p *pubsub.V2Initialise) {
 func (h *SyncLiveHandler) OnUnreadCounts(p *pubsub.V2UnreadCounts) {
 	ctx, task := internal.StartTask(context.Background(), "OnUnreadCounts")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.userCacheForUpdate(p.UserID)
 	if !ok {
 		return
 	}
-	userCache.(*caches.UserCache).OnUnreadCounts(ctx, p.RoomID, p.HighlightCount, p.NotificationCount)
+	userCache.OnUnreadCounts(ctx, p.RoomID, p.HighlightCount, p.NotificationCount)
 }
 
 // push device data updates on waiting conns (otk counts, device list changes)
@@ -731,7 +748,7 @@ func (h *SyncLiveHandler) OnDeviceMessages(p *pubsub.V2DeviceMessages) {
 func (h *SyncLiveHandler) OnInvite(p *pubsub.V2InviteRoom) {
 	ctx, task := internal.StartTask(context.Background(), "OnInvite")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.userCacheForUpdate(p.UserID)
 	if !ok {
 		return
 	}
@@ -741,17 +758,17 @@ func (h *SyncLiveHandler) OnInvite(p *pubsub.V2InviteRoom) {
 		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
 		return
 	}
-	userCache.(*caches.UserCache).OnInvite(ctx, p.RoomID, inviteState)
+	userCache.OnInvite(ctx, p.RoomID, inviteState)
 }
 
 func (h *SyncLiveHandler) OnLeftRoom(p *pubsub.V2LeaveRoom) {
 	ctx, task := internal.StartTask(context.Background(), "OnLeftRoom")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.userCacheForUpdate(p.UserID)
 	if !ok {
 		return
 	}
-	userCache.(*caches.UserCache).OnLeftRoom(ctx, p.RoomID, p.LeaveEvent)
+	userCache.OnLeftRoom(ctx, p.RoomID, p.LeaveEvent)
 }
 
 func (h *SyncLiveHandler) OnReceipt(p *pubsub.V2Receipt) {
@@ -769,12 +786,12 @@ func (h *SyncLiveHandler) OnReceipt(p *pubsub.V2Receipt) {
 	}
 	// always send private receipts, directly to the connected user cache if one exists
 	for userID, privateReceipts := range userToPrivateReceipts {
-		userCache, ok := h.userCaches.Load(userID)
+		userCache, ok := h.userCacheForUpdate(userID)
 		if !ok {
 			continue
 		}
 		for _, pr := range privateReceipts {
-			userCache.(*caches.UserCache).OnReceipt(ctx, pr)
+			userCache.OnReceipt(ctx, pr)
 		}
 	}
 	if len(publicReceipts) == 0 {
@@ -801,7 +818,7 @@ func (h *SyncLiveHandler) OnTyping(p *pubsub.V2Typing) {
 func (h *SyncLiveHandler) OnAccountData(p *pubsub.V2AccountData) {
 	ctx, task := internal.StartTask(context.Background(), "OnAccountData")
 	defer task.End()
-	userCache, ok := h.userCaches.Load(p.UserID)
+	userCache, ok := h.userCacheForUpdate(p.UserID)
 	if !ok {
 		return
 	}
@@ -811,7 +828,7 @@ func (h *SyncLiveHandler) OnAccountData(p *pubsub.V2AccountData) {
 		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
 		return
 	}
-	userCache.(*caches.UserCache).OnAccountData(ctx, data)
+	userCache.OnAccountData(ctx, data)
 }
 
 func (h *SyncLiveHandler) OnExpiredToken(p *pubsub.V2ExpiredToken) {
-- 
2.43.0


From 21e32fba0c44daed74eda81197a46bbdc85b1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:26 +0000
Subject: [PATCH 22/54] fix: do not send typing notifications when an invite is
 received or retired during a request

---
 sync3/extensions/typing.go | 3 +++
 sync3/handler/connstate.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sync3/extensions/typing.go b/sync3/extensions/typing.go
index b88614e..8eb2511 100644
--- a/sync3/extensions/typing.go
+++ b/sync3/extensions/typing.go
@@ -41,6 +41,9 @@ func (r *TypingRequest) AppendLive(ctx context.Context, res *Response, extCtx Co
 		if _, exists := extCtx.RoomIDToTimeline[update.RoomID()]; !exists {
 			return
 		}
+		if urd := update.UserRoomMetadata(); urd != nil && urd.IsInvite {
+			return // the user cannot see who is typing until they join
+		}
 		ev := update.GlobalRoomMetadata().TypingEvent
 		if ev == nil {
 			return
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index a4d87d8..c9c06e8 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -226,8 +226,8 @@ func (s *ConnState) onIncomingRequest(reqCtx context.Context, req *sync3.Request
 	// Handle extensions AFTER processing lists as extensions may need to know which rooms the client
 	// is being notified about (e.g. for room account data)
 	invitedRooms := make(map[string]struct{})
-	for roomID := range response.Rooms {
-		if s.userCache.LoadRoomData(roomID).IsInvite {
+	for roomID, room := range response.Rooms {
+		if len(room.InviteState) > 0 || s.userCache.LoadRoomData(roomID).IsInvite {
 			invitedRooms[roomID] = struct{}{}
 		}
 	}
-- 
2.43.0


From bded14e0aafb5f9e32998b55d29336de68f66766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:26 +0000
Subject: [PATCH 23/54] fix: keep the spaces filter in step with joining and
 leaving spaces

---
 sync3/caches/user.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index b27f73e..889001c 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -601,6 +601,41 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 	}
 }
 
+// onJoinedSpace updates our cache values for the children of a space which the user has just joined.
+func (c *UserCache) onJoinedSpace(ctx context.Context, spaceRoomID string) {
+	space := c.globalCache.LoadRooms(ctx, spaceRoomID)[spaceRoomID]
+	if space == nil || !space.IsSpace() {
+		return
+	}
+	for childRoomID := range space.ChildSpaceRooms {
+		c.onSpaceMembershipChange(ctx, spaceRoomID, childRoomID, false)
+	}
+}
+
+// onLeftSpace updates our cache values for the children of a space (if it is a space) which the user has just left.
+func (c *UserCache) onLeftSpace(ctx context.Context, spaceRoomID string) {
+	var childRoomIDs []string
+	c.roomToDataMu.RLock()
+	for roomID, urd := range c.roomToData {
+		if _, ok := urd.Spaces[spaceRoomID]; ok {
+			childRoomIDs = append(childRoomIDs, roomID)
+		}
+	}
+	c.roomToDataMu.RUnlock()
+	for _, childRoomID := range childRoomIDs {
+		c.onSpaceMembershipChange(ctx, spaceRoomID, childRoomID, true)
+	}
+}
+
+func (c *UserCache) onSpaceMembershipChange(ctx context.Context, spaceRoomID, childRoomID string, isDeleted bool) {
+	c.OnSpaceUpdate(ctx, spaceRoomID, childRoomID, isDeleted, &EventData{
+		RoomID:    spaceRoomID,
+		EventType: "m.space.child",
+		StateKey:  &childRoomID,
+		NID:       0,
+	})
+}
+
 func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	// add this to our tracked timelines if we have one
 	urd := c.LoadRoomData(eventData.RoomID)
@@ -611,16 +646,19 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 			urd.HighlightCount = 0
 		}
 	}
+	justJoined, justLeft := false, false
 	// keep HasLeft up-to-date: connections remove rooms from (or add rooms to) their lists based on this.
 	if eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
 		switch eventData.Content.Get("membership").Str {
 		case "join":
 			urd.HasLeft = false
+			justJoined = eventData.ForceInitial
 		case "leave", "ban":
 			if urd.HasLeft {
 				return // OnLeftRoom has told connections about this already
 			}
 			urd.HasLeft = true
+			justLeft = true
 		}
 	}
 	if eventData.EventType == "m.space.child" && eventData.StateKey != nil {
@@ -639,6 +677,11 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	}
 
 	c.emitOnRoomUpdate(ctx, roomUpdate)
+	if justJoined {
+		c.onJoinedSpace(ctx, eventData.RoomID)
+	} else if justLeft {
+		c.onLeftSpace(ctx, eventData.RoomID)
+	}
 }
 
 func (c *UserCache) OnInvite(ctx context.Context, roomID string, inviteStateEvents []json.RawMessage) {
@@ -717,6 +760,7 @@ func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent js
 		},
 	}
 	c.emitOnRoomUpdate(ctx, up)
+	c.onLeftSpace(ctx, roomID)
 }
 
 func (c *UserCache) OnAccountData(ctx context.Context, datas []state.AccountData) {
-- 
2.43.0


From 1855e48e447e4c034ece0be871fdb1a85301630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:38 +0000
Subject: [PATCH 24/54] fix: send the timestamp of the latest event when
 several are sent at once

---
 sync3/handler/connstate_live.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 0e8bfe1..b56258d 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -212,8 +212,8 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 		}
 
 		// If there are no bumpEventTypes defined, use the last message timestamp
-		if r.Timestamp == 0 && len(bumpEventTypes) == 0 {
-			r.Timestamp = roomUpdate.GlobalRoomMetadata().LastMessageTimestamp
+		if lastTs := roomUpdate.GlobalRoomMetadata().LastMessageTimestamp; lastTs > r.Timestamp && len(bumpEventTypes) == 0 {
+			r.Timestamp = lastTs
 		}
 		// Make sure we don't leak a timestamp from before we joined
 		if r.Timestamp < roomListsMeta.JoinTiming.Timestamp {
-- 
2.43.0


From 9b3a3d83c431dc0fff60fb4d849bf95dcbec3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:15 +0000
Subject: [PATCH 25/54] fix: retry account data which could not be stored

The duplicate suppression remembered account data before it had been stored, so
when storing it failed the retried response was ignored as a duplicate and the
account data was lost.
---
 sync2/handler2/handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 7b6ecf5..7cf494c 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -488,6 +488,7 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 	// duplicate suppression for multiple devices on the same account.
 	// We suppress by remembering the last bytes for a given account data, and if they match we ignore.
 	dedupedEvents := make([]json.RawMessage, 0, len(events))
+	hashes := make(map[string]uint64, len(events))
 	for i := range events {
 		evType := gjson.GetBytes(events[i], "type").Str
 		key := fmt.Sprintf("%s|%s|%s", userID, roomID, evType)
@@ -500,7 +501,7 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 			}
 		}
 		dedupedEvents = append(dedupedEvents, events[i])
-		h.accountDataMap.Store(key, thisHash)
+		hashes[key] = thisHash
 	}
 	if len(dedupedEvents) == 0 {
 		return nil
@@ -512,6 +513,10 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 		sentry.CaptureException(err)
 		return err
 	}
+	// only remember these now they have been stored, else retrying after an error would ignore them as duplicates.
+	for key, hash := range hashes {
+		h.accountDataMap.Store(key, hash)
+	}
 	var types []string
 	for _, d := range data {
 		types = append(types, d.Type)
-- 
2.43.0


From 79aa9e683bc82913780b5239eca104b758229248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:43 +0000
Subject: [PATCH 26/54] fix: do not tell clients about a room they have left
 when a poller is behind

---
 sync3/caches/user.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 889001c..3a3f5e7 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -560,6 +560,10 @@ func (c *UserCache) OnUnreadCounts(ctx context.Context, roomID string, highlight
 	c.roomToData[roomID] = data
 	c.roomToDataMu.Unlock()
 
+	if data.HasLeft {
+		// a poller is behind: don't leak the current room metadata.
+		return
+	}
 	roomUpdate := &UnreadCountUpdate{
 		RoomUpdate:        c.newRoomUpdate(ctx, roomID),
 		HasCountDecreased: hasCountDecreased,
@@ -845,6 +849,10 @@ func (c *UserCache) OnAccountData(ctx context.Context, datas []state.AccountData
 			}
 			c.emitOnUpdate(ctx, globalUpdate)
 		} else {
+			if c.LoadRoomData(roomID).HasLeft {
+				// a poller is behind: don't leak the current room metadata.
+				continue
+			}
 			roomUpdate := &RoomAccountDataUpdate{
 				AccountData: updates,
 				RoomUpdate:  c.newRoomUpdate(ctx, roomID),
-- 
2.43.0


From c107c758b8282cd1023685cd66a3be0ab8e452f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:43 +0000
Subject: [PATCH 27/54] fix: use the latest room subscription when the user
 rejoins the room

---
 sync3/handler/connstate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index c9c06e8..747a566 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -453,6 +453,10 @@ func (s *ConnState) buildRoomSubscriptions(ctx context.Context, builder *RoomsBu
 	for _, roomID := range subs {
 		// check that the user is allowed to see these rooms as they can set arbitrary room IDs
 		if !s.joinChecker.IsUserJoined(s.userID, roomID) {
+			// if they used to be joined then use the new subscription, and not the old one, if they rejoin.
+			if _, exists := s.roomSubscriptions[roomID]; exists {
+				s.roomSubscriptions[roomID] = s.muxedReq.RoomSubscriptions[roomID]
+			}
 			continue
 		}
 
-- 
2.43.0


From aec251bfb06b6a20be4daf284e4ff4a2d55100f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:42 +0000
Subject: [PATCH 28/54] fix: ignore redactions of events in other rooms

---
 state/event_table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state/event_table.go b/state/event_table.go
index 33c5c6c..6101afb 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -398,13 +398,17 @@ func (t *EventTable) Redact(txn *sqlx.Tx, roomVer string, redacteeEventIDToRedac
 		)
 	}
 	for i := range eventsToRedact {
+		redactEvent := redacteeEventIDToRedactEvent[eventsToRedact[i].ID]
+		if redactEvent.RoomID != "" && redactEvent.RoomID != eventsToRedact[i].RoomID {
+			continue // redactions only apply to events in the same room
+		}
 		eventsToRedact[i].JSON, err = rv.RedactEventJSON(eventsToRedact[i].JSON)
 		if err != nil {
 			return fmt.Errorf("RedactEventJSON[%s]: %w", eventsToRedact[i].ID, err)
 		}
 		// also set unsigned.redacted_because as EX relies on it
 		eventsToRedact[i].JSON, err = sjson.SetBytes(
-			eventsToRedact[i].JSON, "unsigned.redacted_because", json.RawMessage(redacteeEventIDToRedactEvent[eventsToRedact[i].ID].JSON),
+			eventsToRedact[i].JSON, "unsigned.redacted_because", json.RawMessage(redactEvent.JSON),
 		)
 		if err != nil {
 			return fmt.Errorf("RedactEventJSON[%s]: setting redacted_because %w", eventsToRedact[i].ID, err)
-- 
2.43.0


From 780b1a981ed9818c69028a4b2b16a703fa7a27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:42 +0000
Subject: [PATCH 29/54] fix: keep the children of a space when its metadata is
 reloaded

---
 state/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/state/storage.go b/state/storage.go
index e771e14..3e04456 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -331,6 +331,7 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 	)
 	WHERE (event_type IN ('m.room.name', 'm.room.avatar', 'm.room.canonical_alias', 'm.room.encryption') AND state_key = '')
 	   OR (event_type = 'm.room.member' AND membership IN ('join', '_join', 'invite', '_invite'))
+	   OR event_type = 'm.space.child'
 	ORDER BY event_nid ASC
 	;`, metadata.RoomID)
 	if err != nil {
@@ -365,7 +366,9 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 				metadata.InviteCount++
 			}
 		case "m.space.child":
-			metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			if gjson.GetBytes(ev.JSON, "content.via").IsArray() {
+				metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			}
 		}
 	}
 
-- 
2.43.0


From c7ae88dc57c1a0e0bdc9f1f8eb70b98182543ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:36 +0000
Subject: [PATCH 30/54] fix: include unread counts when lazy-loading members
 who are typing

---
 sync3/handler/connstate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 747a566..cc2dec9 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -541,7 +541,11 @@ func (s *ConnState) lazyLoadTypingMembers(ctx context.Context, response *sync3.R
 		}
 		room, ok := response.Rooms[roomID]
 		if !ok {
-			room = sync3.Room{}
+			userRoomData := s.userCache.LoadRoomData(roomID)
+			room = sync3.Room{
+				NotificationCount: int64(userRoomData.NotificationCount),
+				HighlightCount:    int64(userRoomData.HighlightCount),
+			}
 		}
 		typingUsers := gjson.GetBytes(typingEvent, "content.user_ids")
 		for _, typingUserID := range typingUsers.Array() {
-- 
2.43.0


From 1849db103acc200658c8087e77d6330e421ad28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:53 +0000
Subject: [PATCH 31/54] fix: lazy-load members again when a room is sent from
 scratch

---
 sync3/handler/connstate.go   | 13 +++++++------
 sync3/handler/lazy_member.go | 26 ++++++++++++++++----------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index cc2dec9..888a828 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -597,12 +597,6 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 
 	// 2. Load required state events.
 	rsm := roomSub.RequiredStateMap(s.userID)
-	if rsm.IsLazyLoading() {
-		for roomID, userIDs := range roomToUsersInTimeline {
-			s.lazyCache.Add(roomID, userIDs...)
-		}
-	}
-
 	internal.Logf(ctx, "connstate", "getInitialRoomData for %d rooms, RequiredStateMap: %#v", len(roomIDs), rsm)
 
 	// Filter out rooms we are only invited to, as we don't need to fetch the state
@@ -637,6 +631,13 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 		if !userRoomData.IsInvite && !s.joinChecker.IsUserJoined(s.userID, roomID) {
 			continue
 		}
+		if rsm.IsLazyLoading() {
+			if userRoomData.IsInvite {
+				s.lazyCache.Reset(roomID) // we don't send any state for invites
+			} else {
+				s.lazyCache.Reset(roomID, roomToUsersInTimeline[roomID]...)
+			}
+		}
 		// remember what we just loaded so if we see these events down the live stream we know to ignore them.
 		// This means that requesting a direct room subscription causes the connection to jump ahead to whatever
 		// is in the database at the time of the call, rather than gradually converging by consuming live data.
diff --git a/sync3/handler/lazy_member.go b/sync3/handler/lazy_member.go
index 412cdf3..6db901f 100644
--- a/sync3/handler/lazy_member.go
+++ b/sync3/handler/lazy_member.go
@@ -1,23 +1,28 @@
 package handler
 
 type LazyCache struct {
-	cache map[string]struct{}
-	rooms map[string]struct{}
+	// room ID -> user IDs. Rooms which are being lazy loaded have an entry.
+	rooms map[string]map[string]struct{}
 }
 
 func NewLazyCache() *LazyCache {
 	return &LazyCache{
-		cache: make(map[string]struct{}),
-		rooms: make(map[string]struct{}),
+		rooms: make(map[string]map[string]struct{}),
 	}
 }
 
 func (lc *LazyCache) IsSet(roomID, userID string) bool {
-	key := roomID + " | " + userID
-	_, exists := lc.cache[key]
+	_, exists := lc.rooms[roomID][userID]
 	return exists
 }
 
+// Reset the set of users in this room, because the client is about to be told about this room from scratch.
+// We cannot rely on what the client has been told before as users may have updated their member events since.
+func (lc *LazyCache) Reset(roomID string, userIDs ...string) {
+	lc.rooms[roomID] = make(map[string]struct{})
+	lc.Add(roomID, userIDs...)
+}
+
 // IsLazyLoading returns true if this room is being lazy loaded.
 func (lc *LazyCache) IsLazyLoading(roomID string) bool {
 	_, exists := lc.rooms[roomID]
@@ -33,12 +38,13 @@ func (lc *LazyCache) Add(roomID string, userIDs ...string) {
 // AddUser to this room. Returns true if this is the first time this user has done so, and
 // hence you should include the member event for this user.
 func (lc *LazyCache) AddUser(roomID, userID string) bool {
-	lc.rooms[roomID] = struct{}{}
-	key := roomID + " | " + userID
-	_, exists := lc.cache[key]
+	if lc.rooms[roomID] == nil {
+		lc.rooms[roomID] = make(map[string]struct{})
+	}
+	_, exists := lc.rooms[roomID][userID]
 	if exists {
 		return false
 	}
-	lc.cache[key] = struct{}{}
+	lc.rooms[roomID][userID] = struct{}{}
 	return true
 }
-- 
2.43.0


From d20623d870938a16b0d1ae8acddd5bb6ef251aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:31 +0000
Subject: [PATCH 32/54] fix: lazy-load members when the timeline limit of a
 list changes

---
 sync3/handler/connstate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 888a828..10b7f91 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -394,6 +394,10 @@ func (s *ConnState) onIncomingListRequest(ctx context.Context, builder *RoomsBui
 			var newRS sync3.RoomSubscription
 			if timelineChanged {
 				newRS.TimelineLimit = nextReqList.TimelineLimit
+				if nextReqList.LazyLoadMembers() {
+					// the new timeline can have events from senders which we haven't sent yet
+					newRS.RequiredState = [][2]string{{"m.room.member", sync3.StateKeyLazy}}
+				}
 			}
 			if reqStateChanged {
 				newRS.RequiredState = nextReqList.RequiredState
-- 
2.43.0


From 5a52195d4e513a40c8aadf1fe17eeb6afc6a1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:27 +0000
Subject: [PATCH 33/54] fix: select the closest prev_batch token instead of any
 later one

---
 state/event_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index 6101afb..855cab1 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -529,7 +529,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 	err = t.db.QueryRow(
 		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= (
 			SELECT event_nid FROM syncv3_events WHERE event_id = $2
-		) LIMIT 1`, roomID, eventID,
+		) ORDER BY event_nid ASC LIMIT 1`, roomID, eventID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
@@ -541,7 +541,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 // is no closest.
 func (t *EventTable) SelectClosestPrevBatch(txn *sqlx.Tx, roomID string, eventNID int64) (prevBatch string, err error) {
 	err = txn.QueryRow(
-		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 LIMIT 1`, roomID, eventNID,
+		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 ORDER BY event_nid ASC LIMIT 1`, roomID, eventNID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
-- 
2.43.0


From 76febc50a25760c321d79915406e0b5c5cb68898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 34/54] fix: unblock requests waiting for a device whose token
 cannot be loaded

---
 sync2/handler2/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 7cf494c..5ec1dd2 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -576,6 +576,12 @@ func (h *Handler) EnsurePolling(p *pubsub.V3EnsurePolling) {
 	if err != nil {
 		log.Err(err).Msg("V3Sub: EnsurePolling unknown device")
 		sentry.CaptureException(err)
+		// the API side is blocked waiting for this device, so always tell it that we are done.
+		h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2InitialSyncComplete{
+			UserID:   p.UserID,
+			DeviceID: p.DeviceID,
+			Success:  false,
+		})
 		return
 	}
 	// don't block us from consuming more pubsub messages just because someone wants to sync
-- 
2.43.0


From 2bf9ffa74109542a84cc2876965e843e9dd5e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 35/54] fix: data race on the error of pollers started at
 startup

---
 sync2/handler2/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 5ec1dd2..9c52807 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -154,7 +154,7 @@ func (h *Handler) StartV2Pollers() {
 					UserID:   t.UserID,
 					DeviceID: t.DeviceID,
 				}
-				_, err = h.pMap.EnsurePolling(
+				_, err := h.pMap.EnsurePolling(
 					pid, t.AccessToken, t.Since, true,
 					logger.With().Str("user_id", t.UserID).Str("device_id", t.DeviceID).Logger(),
 				)
-- 
2.43.0


From f6e033692fe1095e8e677912d41f075f38770c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 36/54] fix: terminate pollers before telling that their token
 has expired

---
 sync2/poller.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index cb6ffc8..8b05c7e 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -555,8 +555,9 @@ func (p *poller) poll(ctx context.Context, s *pollLoopState) error {
 			// 3s * 1000 = 3000s = 50 minutes
 			errMsg := "poller: access token has failed >1000 times to /sync, terminating loop"
 			p.logger.Warn().Msg(errMsg)
-			p.receiver.OnExpiredToken(ctx, hashToken(p.accessToken), p.userID, p.deviceID)
+			// Terminate first: anyone who hears that the token has expired must not find this poller running.
 			p.Terminate()
+			p.receiver.OnExpiredToken(ctx, hashToken(p.accessToken), p.userID, p.deviceID)
 			return fmt.Errorf(errMsg)
 		}
 		// don't backoff when doing v2 syncs because the response is only in the cache for a short
@@ -593,8 +594,9 @@ func (p *poller) poll(ctx context.Context, s *pollLoopState) error {
 		} else {
 			errMsg := "poller: access token has been invalidated, terminating loop"
 			p.logger.Warn().Msg(errMsg)
-			p.receiver.OnExpiredToken(ctx, hashToken(p.accessToken), p.userID, p.deviceID)
+			// Terminate first: anyone who hears that the token has expired must not find this poller running.
 			p.Terminate()
+			p.receiver.OnExpiredToken(ctx, hashToken(p.accessToken), p.userID, p.deviceID)
 			return fmt.Errorf(errMsg)
 		}
 	}
-- 
2.43.0


From 06cefc05737bbe7ae26d1e5d575333397ad3e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:23 +0000
Subject: [PATCH 37/54] fix: tokens which cannot be decrypted stop every poller
 from starting

---
 sync2/tokens_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync2/tokens_table.go b/sync2/tokens_table.go
index 961e7bd..d651bad 100644
--- a/sync2/tokens_table.go
+++ b/sync2/tokens_table.go
@@ -160,11 +160,12 @@ func (t *TokensTable) TokenForEachDevice(txn *sqlx.Tx) (tokens []TokenForPoller,
 		return
 	}
 	for _, token := range tokens {
-		token.AccessToken, err = t.decrypt(token.AccessTokenEncrypted)
-		if err != nil {
+		accessToken, decryptErr := t.decrypt(token.AccessTokenEncrypted)
+		if decryptErr != nil {
 			// Ignore decryption failure.
 			continue
 		}
+		token.AccessToken = accessToken
 		token.AccessTokenHash = hashToken(token.AccessToken)
 	}
 	return
-- 
2.43.0


From 6a813688b97b3c7fc12403b254cf76b8c0a2252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:53 +0000
Subject: [PATCH 38/54] fix: valid tokens refused when another token of the
 device is found to be invalid

---
 sync3/handler/ensure_polling.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync3/handler/ensure_polling.go b/sync3/handler/ensure_polling.go
index 24a54ca..eeda41f 100644
--- a/sync3/handler/ensure_polling.go
+++ b/sync3/handler/ensure_polling.go
@@ -98,6 +98,11 @@ func (p *EnsurePoller) EnsurePolling(ctx context.Context, pid sync2.PollerID, to
 		p.mu.Lock()
 		expired := p.pendingPolls[pid].expired
 		p.mu.Unlock()
+		if expired {
+			// The request we waited for may have used a different access token for this device, so this
+			// says nothing about ours: try again.
+			return p.EnsurePolling(ctx, pid, tokenHash)
+		}
 		return expired
 	}
 	// Make a channel to wait until we have done an initial sync
-- 
2.43.0


From fea52d4cd5e807b7d38a74d7d7d0b4e88ef31b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:43 +0000
Subject: [PATCH 39/54] fix: do not block the listener when the token of a
 device cannot be loaded

---
 sync2/handler2/handler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 9c52807..3157a50 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -576,8 +576,9 @@ func (h *Handler) EnsurePolling(p *pubsub.V3EnsurePolling) {
 	if err != nil {
 		log.Err(err).Msg("V3Sub: EnsurePolling unknown device")
 		sentry.CaptureException(err)
-		// the API side is blocked waiting for this device, so always tell it that we are done.
-		h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2InitialSyncComplete{
+		// the API side is blocked waiting for this device, so always tell it that we are done (but don't
+		// block us from consuming more pubsub messages whilst doing so).
+		go h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2InitialSyncComplete{
 			UserID:   p.UserID,
 			DeviceID: p.DeviceID,
 			Success:  false,
-- 
2.43.0


From 138a74ca70c32ace59b5c6ad22b7b9dfbb8634b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 40/54] fix: answers to an earlier EnsurePolling request
 mistaken for answers to a later one

---
 sync3/handler/ensure_polling.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sync3/handler/ensure_polling.go b/sync3/handler/ensure_polling.go
index eeda41f..594ec3e 100644
--- a/sync3/handler/ensure_polling.go
+++ b/sync3/handler/ensure_polling.go
@@ -73,12 +73,10 @@ func (p *EnsurePoller) EnsurePolling(ctx context.Context, pid sync2.PollerID, to
 	}
 
 	// either we have expired or we haven't expired and are still waiting on the initial sync.
-	// If we have expired, nuke the pid from the map now so we will use the same code path as a fresh device sync
-	if expired {
-		// close any existing channel
-		if p.pendingPolls[pid].ch != nil {
-			close(p.pendingPolls[pid].ch)
-		}
+	// If we have expired, nuke the pid from the map now so we will use the same code path as a fresh device sync,
+	// unless there is a request which has yet to be answered: we need to wait for that answer first as we would
+	// mistake it for the answer to our request otherwise.
+	if expired && p.pendingPolls[pid].ch == nil {
 		delete(p.pendingPolls, pid)
 		// at this point, ch == nil so we will do an initial sync
 	}
-- 
2.43.0


From bdb68f80d66b639c68d92e980e5f9add315c7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:43 +0000
Subject: [PATCH 41/54] fix: pagination token from the start of the room given
 to invite rejections

---
 sync3/handler/connstate_live.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index b56258d..3b8c740 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -241,8 +241,9 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				roomIDtoTimeline := s.userCache.AnnotateWithTransactionIDs(ctx, s.userID, s.deviceID, map[string][]json.RawMessage{
 					roomEventUpdate.RoomID(): {roomEventUpdate.EventData.Event},
 				})
-				if len(r.Timeline) == 0 && r.PrevBatch == "" {
-					// attempt to fill in the prev_batch value for this room
+				if len(r.Timeline) == 0 && r.PrevBatch == "" && roomEventUpdate.EventData.NID > 0 {
+					// attempt to fill in the prev_batch value for this room. Events without a NID (e.g invite rejections)
+					// have no place in the stored timeline, so no token of the room belongs to them.
 					prevBatch := s.userCache.AttemptToFetchPrevBatch(ctx, roomEventUpdate.RoomID(), roomEventUpdate.EventData)
 					if prevBatch != "" {
 						r.PrevBatch = prevBatch
-- 
2.43.0


From 4f76ed1e56cf75fdaedb8432ef4fadfd2335653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:51 +0000
Subject: [PATCH 42/54] fix: a state block without usable events is retried
 forever

---
 state/accumulator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state/accumulator.go b/state/accumulator.go
index 678ef4e..4170692 100644
--- a/state/accumulator.go
+++ b/state/accumulator.go
@@ -207,7 +207,11 @@ func (a *Accumulator) Initialise(roomID string, state []json.RawMessage) (Initia
 		}
 		events = filterAndEnsureFieldsSet(events)
 		if len(events) == 0 {
-			return fmt.Errorf("failed to parse state block, all events were filtered out: %w", err)
+			if startingSnapshotID == 0 {
+				// the HS gave us bad data so there's no point retrying => return DataError
+				return internal.NewDataError("failed to parse state block of room %s, all events were filtered out", roomID)
+			}
+			return nil // there is nothing to add to the state we have
 		}
 
 		if startingSnapshotID == 0 {
-- 
2.43.0


From ea68a73201bc7d19557bde5c82cbd23b01ce7c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:52 +0000
Subject: [PATCH 43/54] fix: endless loop when the predecessors of a room form
 a cycle

---
 sync3/handler/connstate.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 10b7f91..5a382d8 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -494,6 +494,7 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 		roomIDs := bs.RoomIDs
 		if bs.RoomSubscription.IncludeOldRooms != nil {
 			var oldRoomIDs []string
+			seenRooms := make(map[string]struct{}) // guards against rooms which are, directly or not, their own predecessor
 			for _, currRoomID := range bs.RoomIDs { // <- the list of subs we definitely are including
 				// append old rooms if we are joined to them
 				currRoom := s.lists.ReadOnlyRoom(currRoomID)
@@ -506,12 +507,17 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 					if !s.joinChecker.IsUserJoined(s.userID, *prevRoomID) {
 						break
 					}
+					if _, seen := seenRooms[*prevRoomID]; seen {
+						break
+					}
+					seenRooms[*prevRoomID] = struct{}{}
 					oldRoomIDs = append(oldRoomIDs, *prevRoomID)
 					// keep checking
 					prevRoom := s.lists.ReadOnlyRoom(*prevRoomID)
-					if prevRoom != nil {
-						prevRoomID = prevRoom.PredecessorRoomID
+					if prevRoom == nil {
+						break
 					}
+					prevRoomID = prevRoom.PredecessorRoomID
 				}
 			}
 
-- 
2.43.0


From 11bddcaea213af6b7f395c7e75ec91dee1803e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:52 +0000
Subject: [PATCH 44/54] fix: rooms asked for replaced with what
 include_old_rooms asks for

---
 sync3/handler/connstate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 5a382d8..59d0e80 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -526,6 +526,9 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 				// old rooms use a different subscription
 				oldRooms := s.getInitialRoomData(ctx, *bs.RoomSubscription.IncludeOldRooms, bumpEventTypes, oldRoomIDs...)
 				for oldRoomID, oldRoom := range oldRooms {
+					if _, exists := result[oldRoomID]; exists {
+						continue // asked for in its own right, which may ask for more than include_old_rooms does
+					}
 					result[oldRoomID] = oldRoom
 				}
 			}
-- 
2.43.0


From 36d4d465f40b258f88c1c9943dbc75802bb7937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:52 +0000
Subject: [PATCH 45/54] fix: transaction IDs told to other users and devices

---
 state/event_table.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index 855cab1..16215bf 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -165,14 +165,17 @@ func (t *EventTable) Insert(txn *sqlx.Tx, events []Event, checkFields bool) (map
 	}
 	result := make(map[string]int64)
 	for i := range events {
-		if !gjson.GetBytes(events[i].JSON, "unsigned.txn_id").Exists() {
-			continue
-		}
-		js, err := sjson.DeleteBytes(events[i].JSON, "unsigned.txn_id")
-		if err != nil {
-			return nil, err
+		// events are shared between all users and devices, but transaction IDs are private to a device
+		for _, key := range []string{"unsigned.txn_id", "unsigned.transaction_id"} {
+			if !gjson.GetBytes(events[i].JSON, key).Exists() {
+				continue
+			}
+			js, err := sjson.DeleteBytes(events[i].JSON, key)
+			if err != nil {
+				return nil, err
+			}
+			events[i].JSON = js
 		}
-		events[i].JSON = js
 	}
 	chunks := sqlutil.Chunkify(9, MaxPostgresParameters, EventChunker(events))
 	var eventID string
-- 
2.43.0


From b4f5ced2529388827fc3112f8d27de45b7281144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:52 +0000
Subject: [PATCH 46/54] fix: transaction IDs lost when one of a batch is known
 already

---
 state/txn_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state/txn_table.go b/state/txn_table.go
index 8120c19..12b54b2 100644
--- a/state/txn_table.go
+++ b/state/txn_table.go
@@ -48,7 +48,8 @@ func (t *TransactionsTable) Insert(userID, deviceID string, eventIDToTxnID map[s
 	}
 	result, err := t.db.NamedQuery(`
 		INSERT INTO syncv3_txns (user_id, device_id, event_id, txn_id, ts)
-        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)`, rows)
+        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)
+        ON CONFLICT (user_id, device_id, event_id) DO NOTHING`, rows)
 	if err == nil {
 		result.Close()
 	}
-- 
2.43.0


From 5113558048cd9fccd89fae6fab4716e6e727047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:18 +0000
Subject: [PATCH 47/54] fix: pagination token lost when the first event of a
 timeline is malformed

---
 state/accumulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/accumulator.go b/state/accumulator.go
index 4170692..71e4b45 100644
--- a/state/accumulator.go
+++ b/state/accumulator.go
@@ -574,7 +574,7 @@ func (a *Accumulator) Accumulate(txn *sqlx.Tx, userID, roomID string, timeline s
 func parseAndDeduplicateTimelineEvents(roomID string, timeline sync2.TimelineResponse) []Event {
 	dedupedEvents := make([]Event, 0, len(timeline.Events))
 	seenEvents := make(map[string]struct{})
-	for i, rawEvent := range timeline.Events {
+	for _, rawEvent := range timeline.Events {
 		e := Event{
 			JSON:   rawEvent,
 			RoomID: roomID,
@@ -591,7 +591,7 @@ func parseAndDeduplicateTimelineEvents(roomID string, timeline sync2.TimelineRes
 			)
 			continue
 		}
-		if i == 0 && timeline.PrevBatch != "" {
+		if len(dedupedEvents) == 0 && timeline.PrevBatch != "" {
 			// tag the first timeline event with the prev batch token
 			e.PrevBatch = sql.NullString{
 				String: timeline.PrevBatch,
-- 
2.43.0


From d4c403dee335918a80b51bbf1bfbb492df2a6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:52 +0000
Subject: [PATCH 48/54] fix: events repeated when a snapshot is ahead of the
 event which caused it

---
 sync3/handler/connstate_live.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 3b8c740..9965fc1 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -229,8 +229,9 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				if roomEventUpdate.EventData.NID <= s.loadPositions[roomEventUpdate.RoomID()] {
 					// this update has been accounted for by the initial:true room snapshot
 					advancedPastEvent = true
+				} else {
+					s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 				}
-				s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 			}
 			// we only append to the timeline if we haven't already got this event. This can happen when:
 			// - 2 live events for a room mid-connection
-- 
2.43.0


From 7627d4cc8b73910276e0403ca9717b62547ddb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:44 +0000
Subject: [PATCH 49/54] fix: connections made just after the previous one was
 closed are forgotten

---
 sync3/connmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sync3/connmap.go b/sync3/connmap.go
index 287770f..d74cdf1 100644
--- a/sync3/connmap.go
+++ b/sync3/connmap.go
@@ -228,12 +228,15 @@ func (m *ConnMap) closeConn(conn *Conn) {
 
 	connKey := conn.ConnID.String()
 	logger.Trace().Str("conn", connKey).Msg("closing connection")
-	// remove conn from all the maps
-	delete(m.connIDToConn, connKey)
+	// remove conn from all the maps. This may be called some time after the connection was closed, by which time
+	// there may be another connection with the same ID: leave that one alone.
+	if m.connIDToConn[connKey] == conn {
+		delete(m.connIDToConn, connKey)
+	}
 	h := conn.handler
 	conns := m.userIDToConn[conn.UserID]
 	for i := 0; i < len(conns); i++ {
-		if conns[i].DeviceID == conn.DeviceID && conns[i].CID == conn.CID {
+		if conns[i] == conn {
 			// delete without preserving order
 			conns[i] = nil // allow GC
 			conns = slices.Delete(conns, i, i+1)
-- 
2.43.0


From c703a57c1c86645b27d6e132c61b55130cad3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 50/54] fix: data race on the position of a connection which is
 made again

---
 sync3/conn.go    | 7 ++++---
 sync3/connmap.go | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sync3/conn.go b/sync3/conn.go
index 7fcb32e..3aab28c 100644
--- a/sync3/conn.go
+++ b/sync3/conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/matrix-org/sliding-sync/internal"
@@ -57,7 +58,7 @@ type Conn struct {
 	// - Everything before it is old and can be deleted
 	// - Everything after that is new and unseen, and the first element is the one we want to return.
 	serverResponses []Response
-	lastPos         int64
+	lastPos         atomic.Int64
 
 	// ensure only 1 incoming request is handled per connection
 	mu                         *sync.Mutex
@@ -236,11 +237,11 @@ func (c *Conn) OnIncomingRequest(ctx context.Context, req *Request, start time.T
 	// cache errors or panics and result in getting wedged or tightlooping.
 	c.lastClientRequest = *req
 	// this position is the highest stored pos +1
-	resp.Pos = fmt.Sprintf("%d", c.lastPos+1)
+	resp.Pos = fmt.Sprintf("%d", c.lastPos.Load()+1)
 	resp.TxnID = req.TxnID
 	// buffer it
 	c.serverResponses = append(c.serverResponses, *resp)
-	c.lastPos = resp.PosInt()
+	c.lastPos.Store(resp.PosInt())
 	if nextUnACKedResponse == nil {
 		nextUnACKedResponse = resp
 	}
diff --git a/sync3/connmap.go b/sync3/connmap.go
index d74cdf1..abcad4f 100644
--- a/sync3/connmap.go
+++ b/sync3/connmap.go
@@ -142,7 +142,7 @@ func (m *ConnMap) CreateConn(cid ConnID, cancel context.CancelFunc, newConnHandl
 	conn := m.getConn(cid)
 	if conn != nil {
 		// tear down this connection and fallthrough
-		isSpamming := conn.lastPos <= 1
+		isSpamming := conn.lastPos.Load() <= 1
 		if isSpamming {
 			// the existing connection has only just been used for one response, and now they are asking
 			// for a new connection. Apply an artificial delay here to stop buggy clients from spamming
-- 
2.43.0


From a9d6a1d1750bf5b4a229ef8fcf89aec863a6466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 51/54] fix: data race on the heroes of a room between
 connections of a user

---
 sync3/handler/connstate_live.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 9965fc1..2e60da6 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -275,7 +275,8 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 		thisRoom, exists := response.Rooms[roomUpdate.RoomID()]
 		if exists {
 			if delta.RoomNameChanged {
-				metadata := roomUpdate.GlobalRoomMetadata()
+				// take a copy as the update is shared with the other connections of this user
+				metadata := roomUpdate.GlobalRoomMetadata().DeepCopy()
 				metadata.RemoveHero(s.userID)
 				roomName, calculated := internal.CalculateRoomName(metadata, 5) // TODO: customisable?
 
@@ -286,7 +287,8 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				}
 			}
 			if delta.RoomAvatarChanged {
-				metadata := roomUpdate.GlobalRoomMetadata()
+				// take a copy as the update is shared with the other connections of this user
+				metadata := roomUpdate.GlobalRoomMetadata().DeepCopy()
 				metadata.RemoveHero(s.userID)
 				thisRoom.AvatarChange = sync3.NewAvatarChange(internal.CalculateAvatar(metadata, roomUpdate.UserRoomMetadata().IsDM))
 			}
-- 
2.43.0


From 8e4f2479f6c11f7bf8863c2cb496886e98cb383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 52/54] fix: data races between requests and the end of their
 connection

---
 sync3/handler/connstate.go      | 16 +++++++++++-----
 sync3/handler/connstate_live.go |  7 ++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 59d0e80..3a707b8 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"context"
 	"encoding/json"
+	"sync"
 	"time"
 
 	"github.com/matrix-org/sliding-sync/internal"
@@ -23,9 +24,10 @@ type ConnState struct {
 	userID   string
 	deviceID string
 	// the only thing that can touch these data structures is the conn goroutine
-	muxedReq        *sync3.Request
-	cancelLatestReq context.CancelFunc
-	lists           *sync3.InternalRequestLists
+	muxedReq          *sync3.Request
+	cancelLatestReq   context.CancelFunc
+	cancelLatestReqMu sync.Mutex
+	lists             *sync3.InternalRequestLists
 
 	// Confirmed room subscriptions. Entries in this list have been checked for things like
 	// "is the user joined to this room?" whereas subscriptions in muxedReq are untrusted.
@@ -494,7 +496,7 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 		roomIDs := bs.RoomIDs
 		if bs.RoomSubscription.IncludeOldRooms != nil {
 			var oldRoomIDs []string
-			seenRooms := make(map[string]struct{}) // guards against rooms which are, directly or not, their own predecessor
+			seenRooms := make(map[string]struct{})  // guards against rooms which are, directly or not, their own predecessor
 			for _, currRoomID := range bs.RoomIDs { // <- the list of subs we definitely are including
 				// append old rooms if we are joined to them
 				currRoom := s.lists.ReadOnlyRoom(currRoomID)
@@ -764,13 +766,15 @@ func (s *ConnState) trackProcessDuration(ctx context.Context, dur time.Duration,
 func (s *ConnState) Destroy() {
 	s.userCache.Unsubscribe(s.userCacheID)
 	logger.Debug().Str("user_id", s.userID).Str("device_id", s.deviceID).Msg("cancelling any in-flight requests")
+	s.cancelLatestReqMu.Lock()
+	defer s.cancelLatestReqMu.Unlock()
 	if s.cancelLatestReq != nil {
 		s.cancelLatestReq()
 	}
 }
 
 func (s *ConnState) Alive() bool {
-	return !s.live.bufferFull
+	return !s.live.bufferFull.Load()
 }
 
 func (s *ConnState) UserID() string {
@@ -809,6 +813,8 @@ func (s *ConnState) PublishEventsUpTo(roomID string, nid int64) {
 }
 
 func (s *ConnState) SetCancelCallback(cancel context.CancelFunc) {
+	s.cancelLatestReqMu.Lock()
+	defer s.cancelLatestReqMu.Unlock()
 	s.cancelLatestReq = cancel
 }
 
diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 2e60da6..d1b8b54 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"context"
 	"encoding/json"
+	"sync/atomic"
 	"time"
 
 	"github.com/matrix-org/sliding-sync/internal"
@@ -24,14 +25,14 @@ type connStateLive struct {
 	// Consumed when the conn is read. There is a limit to how many updates we will store before
 	// saying the client is dead and clean up the conn.
 	updates    chan caches.Update
-	bufferFull bool
+	bufferFull atomic.Bool
 }
 
 // Called when there is an update from the user cache. This callback fires when the server gets a new event and determines this connection MAY be
 // interested in it (e.g the client is joined to the room or it's an invite, etc).
 // We need to move this data onto a channel for onIncomingRequest to consume later.
 func (s *connStateLive) onUpdate(up caches.Update) {
-	if s.bufferFull {
+	if s.bufferFull.Load() {
 		return
 	}
 	select {
@@ -40,7 +41,7 @@ func (s *connStateLive) onUpdate(up caches.Update) {
 		logger.Warn().Interface("update", up).Str("user", s.userID).Str("device", s.deviceID).Msg(
 			"cannot send update to connection, buffer exceeded. Destroying connection.",
 		)
-		s.bufferFull = true
+		s.bufferFull.Store(true)
 		s.Destroy()
 	}
 }
-- 
2.43.0


From 66aadea2635c28bdc900baa59f7caa8dc988e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:37 +0000
Subject: [PATCH 53/54] fix: keep the later of two account data events of the
 same type when the later one was already stored

---
 sync2/handler2/handler.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 3157a50..ca3572b 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -493,13 +493,17 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 		evType := gjson.GetBytes(events[i], "type").Str
 		key := fmt.Sprintf("%s|%s|%s", userID, roomID, evType)
 		thisHash := fnvHash(events[i])
-		last, _ := h.accountDataMap.Load(key)
-		if last != nil {
-			lastHash := last.(uint64)
-			if lastHash == thisHash {
-				continue // skip this event
+		// the same type can be there more than once: what comes first is superseded by what follows
+		lastHash, seen := hashes[key]
+		if !seen {
+			var last any
+			if last, seen = h.accountDataMap.Load(key); seen {
+				lastHash = last.(uint64)
 			}
 		}
+		if seen && lastHash == thisHash {
+			continue // skip this event
+		}
 		dedupedEvents = append(dedupedEvents, events[i])
 		hashes[key] = thisHash
 	}
-- 
2.43.0


From a6710ad25bc630bf2f89d5f9e5e90deaadfabf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:43 +0000
Subject: [PATCH 54/54] fix: keep the names of heroes up to date in rooms with
 many members

---
 sync3/caches/global.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/caches/global.go b/sync3/caches/global.go
index e448c83..f9ede3e 100644
--- a/sync3/caches/global.go
+++ b/sync3/caches/global.go
@@ -346,7 +346,7 @@ func (c *GlobalCache) OnNewEvent(
 					metadata.RemoveHero(*ed.StateKey)
 				}
 			}
-			if len(metadata.Heroes) < 6 && (membership == "join" || membership == "invite") {
+			if membership == "join" || membership == "invite" {
 				// try to find the existing hero e.g they changed their display name
 				found := false
 				for i := range metadata.Heroes {
@@ -357,7 +357,7 @@ func (c *GlobalCache) OnNewEvent(
 						break
 					}
 				}
-				if !found {
+				if !found && len(metadata.Heroes) < 6 {
 					metadata.Heroes = append(metadata.Heroes, internal.Hero{
 						ID:     *ed.StateKey,
 						Name:   ed.Content.Get("displayname").Str,
-- 
2.43.0

