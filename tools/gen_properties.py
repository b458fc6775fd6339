#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

CONN = "sync3/handler/connstate.go"; LIVE = "sync3/handler/connstate_live.go"

prop("C01", "Room data reaches only users entitled to it by membership",
 "A sync response shows a user timeline events, room state and room ephemeral data only for rooms the user is joined to when the response is built, and timeline events only from the user's current stay in the room (nothing from before their latest join, nothing after their leave, kick or ban except that membership event itself). A room the user is merely invited to shows only the stripped invite state the homeserver sent for that invite (no typing notices, receipts or later state). A room the user was never in, or was banned from before joining, shows nothing, even if the client names it in a room subscription or list filter.",
 ["histories", "inputs", "schedules"], "every history of joins, leaves, kicks, bans, invites and re-joins by several users, every request, and every order in which the homeserver streams of different users are processed",
 "Tests cover single hand-written membership changes (TestNotificationsOnTop, invite and security tests) with one or two users; leaks appear for specific transitions (ban before join, leave while another user keeps the room live, subscription to a left room) in histories tests do not sample.",
 ["sync3/dispatcher.go", "sync3/tracker.go", CONN, LIVE, "sync3/caches/user.go", "state/storage.go"],
 [("membership check before dispatch", "sync3/dispatcher.go notifyListeners/onNewEvent"), ("joined check before serving a subscription", CONN+" buildRoomSubscriptions"), ("visible event ranges since latest join", "state/storage.go visibleEventNIDsBetween/LatestEventsInRooms")],
 ["HTTP sync responses of every client", "the event history served by the homeserver"])

prop("C02", "Connection positions: exactly-once, replayable, rejecting unknown ones",
 "Within one connection every response carries a new position, the same request retried against a position returns the identical response that position led to without consuming further updates, and responses are handed out in the order they were produced, each until the client acknowledges it by using its position; a client which lost a response and changes its request gets the lost response first. A position which the connection has not issued or no longer holds, or which belongs to an expired, replaced or closed connection, is refused with an error and never silently answered. A failed, duplicated or cancelled request leaves the connection as it was.",
 ["histories", "schedules", "inputs"], "every sequence of first requests, retries, out-of-order retries, concurrent duplicate requests, handler failures and reconnects",
 "Unit tests check a handful of scripted retry sequences (conn_test.go); the guarantee is over every interleaving of retries, changed bodies, failures and concurrent requests.",
 ["sync3/conn.go", "sync3/connmap.go", "sync3/handler/handler.go"],
 [("retransmission cache keyed on last client request", "sync3/conn.go OnIncomingRequest"), ("connection replacement and expiry", "sync3/connmap.go")],
 ["HTTP sync responses and error codes", "handler invocations of a connection"])

prop("C03", "List operations reconstruct the server's list windows exactly",
 "A client that applies the list operations of every response in order (deletes, inserts, syncs and invalidations on its requested ranges) always ends up with precisely the server's current list contents on the ranges it tracks: right room at each index, no stale, duplicate or missing entry. The reported list count always equals the true number of rooms in the list after that response.",
 ["histories", "inputs"], "every history of room events, joins, leaves, sort and filter changes, and every sequence of range sets the client requests",
 "Tests apply ops for a few moves in fixed windows; correctness depends on the combination of several disjoint ranges, moves across gaps, list growth and shrinkage and range changes.",
 ["sync3/ops.go", "sync3/lists.go", "sync3/range.go", CONN, LIVE],
 [("op calculation for a moved room", "sync3/ops.go CalculateListOps"), ("range difference", "sync3/range.go Delta"), ("invalidation on sort or filter change", CONN+" onIncomingListRequest")],
 ["HTTP sync responses (lists section)"])

prop("C04", "Lists hold exactly the matching rooms in the requested order",
 "Once things are quiet a list consists of exactly the joined and invited rooms of the user which pass the list's filters (direct messages, spaces, encryption, invites, room types, tombstones, name match, tags), ordered by the requested sort keys (recency, name, notification level and counts) evaluated on current room data. A changed filter, sort order or attribute of a room moves rooms into, within and out of the list accordingly. Rooms superseded by an upgrade the user has joined are left out of newly made lists unless asked for.",
 ["histories", "inputs"], "every history of room changes and every filter and sort combination",
 "Tests check one filter or sort at a time on a static or once-changed room set; live membership of a list must track every change of every attribute the filter or sort reads.",
 ["sync3/lists.go", "sync3/request.go", "sync3/sort.go", "sync3/room.go", "sync3/caches/user.go", "sync3/caches/global.go"],
 [("filter evaluation", "sync3/request.go RequestFilters.Include"), ("sort comparators", "sync3/sort.go"), ("re-evaluation of filters and position on each update", "sync3/handler/connstate_live.go processLiveUpdate, sync3/lists.go")],
 ["HTTP sync responses", "room and account-data history at the homeserver"])

prop("C05", "Visible rooms' timelines: no event lost, duplicated or out of order",
 "For a room a client continuously tracks (in a list window or by subscription), the concatenation of the timelines it receives from the moment the room first appears is the room's event sequence with no event missing, repeated or reordered, whichever poller delivered each event first and however events, requests and retries interleave. Only where the homeserver's own stream has a gap may a timeline jump, and it then continues with the events after the gap.",
 ["histories", "schedules"], "every interleaving of events arriving by several pollers with client requests, window changes and retries",
 "Tests send a few events and look at the next response; loss and duplication need particular timing between loading the initial room and live updates, or overlapping deliveries from two pollers.",
 [LIVE, CONN, "sync3/caches/global.go", "state/accumulator.go", "sync2/poller.go", "pubsub/pubsub.go"],
 [("load positions to discard already-sent updates", LIVE+" / "+CONN+" loadPositions"), ("single executor for all pollers", "sync2/poller.go PollerMap.execute"), ("event de-duplication", "state/accumulator.go filterToNewTimelineEvents")],
 ["HTTP sync responses (rooms section)", "homeserver event log"])

prop("C06", "Current room state equals the last event per type and state key",
 "After any sequence of state blocks and timelines, the room state the proxy stores and serves (required_state, members, room details) holds, for each event type and state key, exactly the most recent event delivered by the homeserver, with exactly one event per type and state key. A client tracking a room is sent every later change of the state it asked for, so that its copy is the current state once things are quiet.",
 ["histories", "inputs"], "every sequence of initial state, incremental timelines, gappy (limited) syncs with state deltas, and duplicate deliveries",
 "Tests build a handful of states; the fold must hold for every interleaving of state and timeline deliveries including gaps and repeated events.",
 ["state/accumulator.go", "state/storage.go", "state/snapshot_table.go", "state/event_table.go", "sync3/handler/connstate.go"],
 [("snapshot calculation on each state event", "state/accumulator.go calculateNewSnapshot/Accumulate"), ("state block handling", "state/accumulator.go Initialise"), ("state after a position", "state/storage.go RoomStateAfterEventPosition")],
 ["required_state in HTTP responses", "storage queries of room state"])

prop("C07", "Ingestion is idempotent and independent of how streams overlap",
 "Delivering the same homeserver data again, through another device's stream, in different batch sizes or after a retry, leaves the stored events, room state, memberships, invites, unread counts and room metadata exactly as if each event had been delivered once. Stored events are never lost, never duplicated, and keep the homeserver's order within a room.",
 ["histories", "schedules"], "every partition of a room's event stream into batches over several overlapping pollers, with repeats",
 "Tests replay one duplicate batch; equality must hold for every partition and overlap pattern.",
 ["state/accumulator.go", "state/event_table.go", "state/storage.go", "sync2/handler2/handler.go"],
 [("insert ignoring known events", "state/event_table.go Insert"), ("new-events filter", "state/accumulator.go filterToNewTimelineEvents")],
 ["storage contents", "HTTP responses of a fresh client"])

prop("C08", "A failed write leaves no partial data and is retried to completion",
 "If storing part of a homeserver response fails at any database write, nothing half-written is visible, the stream position is not advanced past the unprocessed data, and once the database recovers every event, to-device message, account data item, invite and device change of that response is stored and delivered as if the failure had not happened (to-device messages of the failed response possibly twice). A stored stream position never runs ahead of durably stored data, so a crash and restart at any point loses nothing.",
 ["fault_sequences", "crash_points"], "every write of the ingest path failing, one or several times, and the process dying between any two writes",
 "Unit tests inject one receiver error; no test fails individual database writes or restarts the process between them.",
 ["sync2/poller.go", "sync2/handler2/handler.go", "state/accumulator.go", "sqlutil/sql.go"],
 [("since token only advanced after all sections succeed", "sync2/poller.go poll"), ("transactions", "sqlutil/sql.go WithTransaction"), ("errors classified as retryable", "sync2/poller.go shouldRetry")],
 ["database write statements (faulted by triggers)", "HTTP responses and storage contents after recovery"])

prop("C09", "To-device messages: in order, none lost, repeated only until acknowledged",
 "Every to-device message the homeserver hands over for a device is delivered to that device's client, in the order received, and to no other device; it is repeated only until the client acknowledges a position at or past it (or the homeserver itself hands it over again after a failure), and after acknowledgement never again. Limits only split delivery into successive responses. A key request is withheld only if its cancellation arrived before the request was ever sent to the client.",
 ["histories", "inputs", "crash_points"], "every sequence of message batches, limits, acknowledgements, lost responses, reconnects and restarts for several devices",
 "Tests use short scripted sequences for one device; order and acknowledgement must hold for any interleaving of arrivals, acks, limits, cancellations and restarts.",
 ["state/to_device_table.go", "sync3/extensions/todevice.go", "sync2/poller.go"],
 [("monotone positions and delete up to ack", "state/to_device_table.go"), ("cancellation pruning above unacked position", "state/to_device_table.go InsertMessages")],
 ["extensions.to_device in HTTP responses"])

prop("C10", "Device-list and key-count changes are delivered at least once",
 "Every device-list change or departure the homeserver reports for a device after its first sync reaches that device's client at least once, the latest report per user winning, even if a response is lost or the connection is re-created, and is not repeated after a later acknowledged response. One-time-key counts and fallback key types shown to a client are always the latest reported, are sent on a fresh connection, and a change is always announced.",
 ["histories", "crash_points", "schedules"], "every sequence of device-list, key-count and fallback-key updates, client requests, retries, reconnects and restarts",
 "Tests cover single updates; the pending/sent hand-over must be right under every interleaving of updates with requests and lost responses.",
 ["state/device_data_table.go", "state/device_list_table.go", "sync3/extensions/e2ee.go", "internal/device_data.go", "internal/device_lists.go", "sync2/device_data_ticker.go"],
 [("new/sent bucket swap in one transaction", "state/device_data_table.go Select"), ("delta detection in the poller", "sync2/poller.go parseE2EEData")],
 ["extensions.e2ee in HTTP responses"])

prop("C11", "Restarting the proxy changes nothing a client can see",
 "A fresh client connecting after the proxy is restarted on the same database sees the same rooms, list order, counts, names, members, unread counts, invites, timelines, state, account data and receipts as a fresh client connecting just before the restart. In-memory room metadata maintained from live updates always equals what would be loaded from the database.",
 ["histories", "crash_points"], "every history of updates followed by a restart",
 "Restart tests exist for two or three aspects after trivial histories; the live-maintained caches must agree with the reload for every history.",
 ["state/storage.go", "sync3/caches/global.go", "sync3/caches/user.go", "sync3/handler/handler.go", "sync3/tracker.go"],
 [("startup snapshot", "state/storage.go GlobalSnapshot"), ("live metadata maintenance", "sync3/caches/global.go OnNewEvent")],
 ["HTTP responses before and after restart"])

prop("C12", "Read receipts: latest one per user, private ones only to their owner",
 "A user's public read receipt that newly arrives for a tracked room is delivered to every other client tracking that room, and a client opening a room gets its own latest receipts plus the public receipts on the timeline events it is shown. Private receipts are shown only to the user they belong to, an older or repeated delivery of a receipt is not re-announced, and a receipt stored is always the latest reported for that room, user and thread.",
 ["histories", "inputs"], "every sequence of receipt events over users, threads, events and rooms",
 "Tests check a few receipts; privacy and replacement must hold for every mix of private/public/threaded receipts and receivers.",
 ["state/receipt_table.go", "sync3/extensions/receipts.go", "sync3/dispatcher.go", "sync3/handler/handler.go"],
 [("separate private table", "state/receipt_table.go"), ("private receipts dispatched to owner only", "sync3/dispatcher.go OnReceipt")],
 ["extensions.receipts in HTTP responses"])

prop("C13", "Account data shown is always the latest, and every change is delivered",
 "A client that enables account data gets the latest value of each global type on its first response and each room type when the room is first shown, and every later change afterwards exactly for its own user; the last value delivered for a type equals the last value the homeserver reported. Direct-message flags and tags derived from account data follow the latest value for rooms and lists sent afterwards, and no user ever receives another user's account data.",
 ["histories", "inputs"], "every sequence of global and room account data updates over users and devices, with duplicates via several devices",
 "Tests set one or two values; the last-value and delivery guarantees must survive duplicates, reverts to an older value, overlapping devices and requests.",
 ["state/account_data.go", "sync2/handler2/handler.go", "sync3/extensions/account_data.go", "sync3/caches/user.go"],
 [("duplicate suppression by last hash", "sync2/handler2/handler.go OnAccountData"), ("upsert by user, room, type", "state/account_data.go")],
 ["extensions.account_data in HTTP responses"])

prop("C14", "Unread counts and invites track the homeserver",
 "The notification and highlight counts shown for a room are always the last ones the homeserver reported for that user and room, and a change is pushed to clients tracking the room. An invite appears as an invited room from when the homeserver reports it until it is accepted, rejected or withdrawn, and then disappears as an invite everywhere, including after a restart.",
 ["histories"], "every sequence of unread-count reports, invites, joins, rejections, retractions and re-invites",
 "Tests check one transition each.",
 ["state/unread_table.go", "state/invites_table.go", "sync3/caches/user.go", "sync2/handler2/handler.go", "state/accumulator.go"],
 [("partial update of counters", "state/unread_table.go"), ("invite removal on later membership", "state/invites_table.go, state/accumulator.go")],
 ["HTTP responses: notification_count, highlight_count, invite_state, list membership"])

prop("C15", "Transaction IDs are echoed to the sending device without reordering",
 "An event whose transaction ID the homeserver revealed to the sending device shows that transaction ID in that device's responses even when the event first arrived through somebody else's stream, provided it is revealed within the configured delay and before the event had to be shown. No other user or device ever sees that transaction ID. Holding back a sender's own events to wait for the ID never loses, duplicates or reorders events of a room and never delays them much beyond the configured maximum.",
 ["schedules", "histories"], "every order in which several pollers deliver an event with and without its transaction ID, for several rooms, devices and delays",
 "Tests check a few scripted orders; the waiter must be right for any mix of own and foreign events and reveal orders.",
 ["sync3/handler/txn_id_waiter.go", "state/txn_table.go", "sync2/txnid.go", "sync2/handler2/handler.go", "sync3/caches/user.go"],
 [("per-room queue behind the first unconfirmed own event", "sync3/handler/txn_id_waiter.go"), ("all-clear detection", "sync2/txnid.go")],
 ["timeline events in HTTP responses", "waiter publications"])

prop("C16", "Pollers: one per device, correct resume token, stop on revoked access",
 "For each device at most one stream to the homeserver is active, each poll resumes exactly from the last fully processed (after a restart: last stored) position, transient homeserver errors are retried from the same position without loss, and data from all pollers is applied one piece at a time. When the homeserver rejects a token its poller stops, is not restarted at boot, and clients of that device are told to authenticate again, while other devices are unaffected.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of poller starts, stops, token rejections, transient errors and concurrent client arrivals for several devices",
 "Tests drive one poller through one failure; exclusion and resume must hold under concurrent starts and arbitrary error sequences.",
 ["sync2/poller.go", "sync2/handler2/handler.go", "sync3/handler/ensure_polling.go", "sync2/tokens_table.go", "sync2/devices_table.go"],
 [("poller map mutex and terminated flag", "sync2/poller.go EnsurePolling"), ("ensure-polling latch", "sync3/handler/ensure_polling.go")],
 ["requests seen by the homeserver", "HTTP responses to clients"])

prop("C17", "A token only ever sees its own user's and device's session",
 "Every response to a request is for the user and device that the homeserver says own the presented access token; positions, connections, to-device messages, account data and transaction IDs of one user, device or named connection are never reachable from another. Unknown tokens, and tokens which the homeserver has rejected to the proxy, are refused. Stored access tokens are never readable in the database without the server secret.",
 ["inputs", "histories", "schedules"], "every mix of tokens, devices, connection names and positions presented by concurrent clients, including guessed or reused positions",
 "Tests use one token per user in sequence; isolation must hold for any mixture and timing.",
 ["sync3/handler/handler.go", "sync3/connmap.go", "sync2/tokens_table.go", "sync2/client.go"],
 [("token lookup by hash, whoami on miss", "sync3/handler/handler.go identifyUnknownAccessToken"), ("connection key of user, device, conn id", "sync3/connmap.go")],
 ["HTTP responses", "token table contents"])

prop("C18", "Sticky parameters and overlapping subscriptions combine correctly",
 "A request parameter once sent stays in force until changed or the connection ends, so omitting it behaves exactly as repeating it, list by list and room by room. A room covered by several lists or subscriptions is returned once with the largest of their timeline limits and the union of their required state, and a newly added or widened subscription or range causes the newly covered data to be sent.",
 ["inputs", "histories"], "every sequence of partial requests over lists, subscriptions, unsubscriptions and extensions",
 "Tests check selected fields for one delta; equivalence must hold for any sequence of partial requests.",
 ["sync3/request.go", "sync3/handler/rooms_builder.go", "internal/required_state_map.go", CONN, "sync3/extensions/extensions.go"],
 [("delta application", "sync3/request.go ApplyDelta"), ("combination of subscriptions", "sync3/request.go RoomSubscription.Combine"), ("grouping of rooms", "sync3/handler/rooms_builder.go")],
 ["HTTP responses"])

prop("C19", "Room details match room state: name, counts, avatar, type, timestamps",
 "The room name, heroes, avatar, joined and invited counts, direct-message flag, activity timestamp and live-event count in responses are those computed from the room's current state and the user's account data at that point. Whenever the name, avatar, counts or timestamp of a tracked room change the client is sent the new value, so that a client that remembers the last value received for each holds the true value once things are quiet.",
 ["histories"], "every history of member, name, alias, avatar and canonical changes over several users",
 "Tests check static examples of names and counts; live maintenance must be exact over all histories (profile changes, kicks, rejoin, invited-to-joined, hero changes).",
 ["internal/roomname.go", "sync3/caches/global.go", "sync3/avatar.go", "sync3/room.go", "sync3/handler/connstate.go", LIVE],
 [("live metadata counters", "sync3/caches/global.go"), ("name calculation", "internal/roomname.go"), ("change detection", "sync3/lists.go SetRoom / "+LIVE)],
 ["HTTP responses: name, joined_count, invited_count, avatar, heroes, timestamp"])

prop("C20", "No data races, deadlocks, lost wake-ups or crashes under concurrency",
 "With many clients, connections and pollers active at once the process never races on memory, never panics on any request or homeserver data, never deadlocks, and every request finishes within its timeout. A waiting request is woken by every update relevant to it, and one client's behaviour (slow, cancelling, overflowing its buffer) never blocks another's for longer than the configured buffer wait.",
 ["schedules", "inputs"], "every interleaving of concurrent requests, cancellations, live updates, connection expiry and restarts",
 "The test suite runs without the race detector in practice on mostly sequential scripts.",
 ["sync3/conn.go", "sync3/connmap.go", LIVE, "sync3/caches/user.go", "sync3/caches/global.go", "sync3/dispatcher.go", "sync3/handler/handler.go", "sync2/poller.go", "pubsub/pubsub.go", "internal/pool.go"],
 [("per-connection mutex", "sync3/conn.go"), ("cache locks", "sync3/caches"), ("single dispatcher goroutine", "pubsub/pubsub.go")],
 ["Go race detector", "request completion", "process liveness"])

prop("C21", "Lazy-loaded members accompany the events they sent",
 "With lazy-loaded members requested, whenever a timeline event is delivered the sender's current membership event has been delivered on that connection in the same or an earlier response, and members not needed are not sent in bulk. Explicitly requested members, including the requesting user, are always present in a room's initial state.",
 ["histories", "inputs"], "every sequence of events by changing senders, member changes, window changes and retries",
 "Tests check two or three senders.",
 ["sync3/handler/lazy_member.go", CONN, LIVE, "internal/required_state_map.go"],
 [("per-connection lazy cache", "sync3/handler/lazy_member.go"), ("members added for timeline senders", LIVE)],
 ["required_state and timeline in HTTP responses"])

prop("C22", "Ignored users' messages are hidden and redacted content stays gone",
 "After a user's ignore list (latest account data) contains someone, no message from that person newly appears in that user's responses, while state changes and other users' views are unaffected; un-ignoring restores delivery of later messages. After a redaction has been processed, no response built from then on for any client, in timeline or state and also after restart, contains the redacted content again, and no event other than the redacted one is changed.",
 ["histories"], "every history of ignores, un-ignores, messages, redactions of messages and state",
 "Tests cover one ignore and one redaction.",
 ["sync3/caches/user.go", LIVE, CONN, "state/event_table.go", "state/accumulator.go", "sync3/caches/global.go"],
 [("ignored senders filter", CONN+"/"+LIVE), ("redaction of stored JSON", "state/event_table.go Redact")],
 ["HTTP responses"])

prop("C23", "A client too slow or idle is expired, never silently missing updates",
 "If a connection cannot keep up and its pending updates are dropped, or it is discarded (idle, device logged out, room reset), the next request on it is refused as expired so that the client starts over; there is no history in which updates were dropped and the connection still continues as if complete. Other connections of the same or other users are unaffected and a new connection starts cleanly with full current data. A connection which keeps up is not expired.",
 ["schedules", "histories"], "every amount of backlog relative to the buffer, and every timing of overflow, expiry and requests",
 "One test overflows one buffer once.",
 ["sync3/connmap.go", LIVE, "sync3/conn.go", "sync3/handler/handler.go"],
 [("buffer-full flag closes the connection", LIVE+" OnUpdate/Alive"), ("close on token expiry or room invalidation", "sync3/connmap.go")],
 ["HTTP responses and error codes", "room data after reconnect"])

prop("C24", "Stored history stays intact: positions, gaps, pagination tokens, cleanup",
 "Timelines served for a newly shown room are contiguous runs ending at the newest visible event, cut at a known gap, at most the requested limit, and the pagination token returned lets the client continue exactly before the oldest event shown or nearest after it, never skipping unseen events. Periodic cleanup never removes state or events that current rooms, retained timelines or the deliveries pending for a reasonably current client still need.",
 ["histories", "configurations"], "every history with gaps, limits, cleanups at any moment",
 "Tests check single gaps and one cleanup.",
 ["state/storage.go", "state/event_table.go", "state/accumulator.go", "state/snapshot_table.go"],
 [("missing-previous marker", "state/accumulator.go, state/event_table.go SelectLatestEventsBetween"), ("closest prev_batch", "state/event_table.go SelectClosestPrevBatch"), ("cleaner", "state/storage.go RemoveInaccessibleStateSnapshots")],
 ["timeline, limited, prev_batch in HTTP responses", "storage queries after cleanup"])

prop("C25", "Malformed input is refused or skipped without harming anything else",
 "A malformed or out-of-range client request (bad JSON, invalid ranges, sort, position, oversized fields) is answered with a client error and has no effect on the connection or other clients. Malformed pieces of a decodable homeserver response (events missing fields, rooms without creation data, unparsable ephemeral data) are skipped without losing, corrupting or delaying the well-formed remainder of the response.",
 ["inputs"], "every malformed request body and homeserver payload",
 "Tests try a few bad bodies and one bad room.",
 ["sync3/request.go", "sync3/range.go", "sync3/handler/handler.go", "sync2/poller.go", "state/accumulator.go", "state/event_table.go"],
 [("request validation", "sync3/request.go Validate"), ("data errors are skipped, others retried", "sync2/poller.go parseRoomsResponse")],
 ["HTTP status codes", "subsequent responses"])

prop("C26", "Typing notices follow the room's current typists and reach only members",
 "A typing notification for a tracked room shows exactly the set of typists last reported by the stream currently responsible for that room, is delivered to every client tracking the room with typing enabled, and is never shown to users not joined to the room. If the responsible stream stops or its user leaves, another stream of that room takes over with the next report.",
 ["histories", "schedules"], "every sequence of typing updates over several pollers, departures and poller terminations",
 "Tests check two pollers once.",
 ["sync2/handler2/handler.go", "sync3/extensions/typing.go", "sync3/dispatcher.go", "sync3/caches/global.go"],
 [("responsible poller per room", "sync2/handler2/handler.go SetTyping/OnTerminated/OnLeftRoom")],
 ["extensions.typing in HTTP responses"])

prop("C27", "Old rooms come with the rooms which replaced them",
 "When a room which replaced others through upgrades is sent anew to a client whose list or subscription asked for old rooms, every predecessor in the chain is sent in the same response, as far back as the user is joined to the rooms in between, with the state and timeline limit asked for old rooms; a predecessor the user is not joined to is not sent, nor are rooms which did not precede the one sent, and clients which did not ask for old rooms get none.",
 ["histories", "inputs"], "every chain of upgrades, memberships in it, and mix of lists and subscriptions asking for old rooms or not",
 "Tests check one chain with fixed memberships.",
 [CONN, "sync3/request.go", "sync3/room.go"],
 [("predecessors followed along create events", CONN+" buildRooms"), ("include_old_rooms combined over lists and subscriptions", "sync3/request.go RoomSubscription.Combine")],
 ["rooms in HTTP responses"])

prop("C28", "Extensions are limited to the lists and rooms asked for",
 "An extension request may be limited to named lists (or all) and to named rooms (or all subscribed ones). Account data, receipts and typing notices of rooms in that scope arrive, both with rooms sent anew and as live updates, and none of rooms outside it do. Leaving lists and rooms out of the first request means all of them; leaving them out later keeps what was said before; an empty list means none. A change applies from the request that makes it.",
 ["inputs", "histories"], "every combination of list and room limits per extension, windows, subscriptions and later changes",
 "Tests check one combination per extension.",
 ["sync3/extensions/extensions.go", "sync3/extensions/account_data.go", "sync3/extensions/receipts.go", "sync3/extensions/typing.go", LIVE],
 [("scoping of rooms", "sync3/extensions/extensions.go Core.RoomInScope"), ("sticky parameters", "sync3/extensions/extensions.go Core.ApplyDelta")],
 ["extensions in HTTP responses"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
