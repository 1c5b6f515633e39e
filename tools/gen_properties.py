#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for titles, statements, anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RT = "src/rtmessage/rtrouted.c"; TREE = "src/rtmessage/rtRoutingTree.c"; CON = "src/rtmessage/rtConnection.c"
CORE = "src/core/rbuscore.c"; RB = "src/rbus/rbus.c"; EL = "src/rbus/rbus_element.c"; SUB = "src/rbus/rbus_subscriptions.c"

p("R01", "Daemon delivers each message to exactly the current owners of its topic",
  "A message sent to a topic is delivered by the routing daemon exactly once, with payload, header, sequence number, reply topic and the receiver's own subscription id intact, to every connected client whose currently registered name, pattern or inbox matches that topic ({i} placeholders matching row identifiers, names ending in '.' reaching the clients that registered something beneath them), and to nobody else. "
  "A request that no client can receive is answered at once to its sender, with its own sequence number, as undeliverable; a response goes only to the inbox it is addressed to. "
  "Messages from one sender to one receiver arrive in the order they were sent.",
  ["histories", "inputs"],
  "Every sequence of register / unregister / send / request / respond / connect / disconnect operations by any number of clients, with any mix of plain, table ({i}), partial-path and inbox topics.",
  "The unit tests exercise a handful of fixed topics with one provider and one consumer; what is delivered after an arbitrary history of registrations, removals and disconnects is never compared with what should be.",
  [RT, TREE, "src/rtmessage/rtMessageHeader.c"],
  [("route lookup by tokenised topic", TREE + ": rtRoutingTree_GetTopicRoutes"), ("dispatch and undeliverable bounce", RT + ": rtConnectedClient_Read / rtRouter_DispatchMessageFromClient / prep_reply_header_from_request"), ("forwarding", RT + ": rtRouted_ForwardMessage")],
  [("routing tree", "topic node -> routes", TREE), ("gRoutes/gClients", "flat route list and connected clients", RT)],
  ["bytes received by each client socket"])

p("R02", "A name has one owner: duplicates are refused, removals touch only one's own",
  "Registering a data element (a further name under a component's registration) that another component or the same one already holds is refused with the duplicate-entry error and changes nothing, and every other well-formed registration succeeds and takes effect before it is acknowledged. "
  "Unregistering a name withdraws exactly that registration of that name: other registrations and names of the client, other clients' names and everything beneath the name stay registered and reachable. "
  "Malformed names (empty tokens, too many tokens, a plain sibling of a table placeholder or the reverse) are refused as data elements without changing anything.",
  ["histories", "inputs"],
  "Every interleaving of add/remove registrations by any number of clients over overlapping names (same name, parent/child names, table and row names), including removals of names one does not own.",
  "Tests register a fixed list of names from one process and remove them at exit; overlapping ownership histories are not explored.",
  [RT, TREE, CORE],
  [("duplicate detection", TREE + ": rtRoutingTree_AddTopicRoute err_on_dup"), ("alias registration", RT + ": rtRouted_AddAlias"), ("removal", RT + ": rtRouted_OnMessageSubscribe; " + TREE + ": rtRoutingTree_RemoveTopic")],
  [("topic node route lists", "who owns each registered name", TREE)],
  ["subscribe responses", "routing of subsequent probes", "discovery queries"])

p("R03", "When a client goes away its registrations vanish, nobody else's, and peers learn",
  "When a connection ends, in any way and at any point of a message, every registration of that client and only those are withdrawn: its names become undeliverable and immediately re-registrable by others, and every other client's names keep routing. "
  "Exactly one disconnect notice naming the departed client's inbox is delivered to each listener of the daemon's advisory topic (and one connect notice when an inbox is first registered); the daemon keeps serving all other clients.",
  ["crash_points", "histories"],
  "Every point of every client's operation history (including the middle of a partially written frame, and with unread data queued) at which its connection may be closed.",
  "The tests end providers and consumers in an orderly way; connection loss in the middle of a frame or with overlapping registrations is not exercised.",
  [RT, TREE],
  [("disconnect cleanup", RT + ": rtConnectedClient_Destroy / rtRouted_ClearClientRoutes"), ("route removal", TREE + ": rtRoutingTree_RemoveRoute"), ("advisory", RT + ": rtRouted_SendAdvisoryMessage")],
  None, ["advisory messages at listeners", "probes after the disconnect"])

p("R04", "Discovery answers describe exactly what is registered now",
  "At every moment the daemon's discovery queries agree with the registrations in force: the component list holds each connected component exactly once and nobody else; the elements of a component are exactly the names it registered; the component of an element is the one that owns it, empty if none; the destinations of a partial or wildcard path are exactly the components holding something that it matches. "
  "Queries never change any state.",
  ["histories", "inputs"],
  "Every history of registrations, removals and disconnects, followed by each kind of query over exact, table, partial and unknown names.",
  "Tests query discovery once against fixed registrations; agreement after arbitrary histories of removals and disconnects is not checked.",
  [RT, TREE, CORE],
  [("discovery handlers", RT + ": rtRouted_OnMessageDiscover*"), ("tree queries", TREE + ": rtRoutingTree_ResolvePartialPath / GetElements / expression lookups"), ("client API", CORE + ": rbus_discover*")],
  None, ["discovery responses", "rbus_discoverComponentName / rbus_discoverComponentDataElements"])

p("R05", "Framing survives any fragmentation; a corrupt peer harms only itself",
  "However a client's byte stream of well-formed frames is split or coalesced by the transport, the daemon forwards precisely the messages it encodes, each once, in order and byte-identical in payload, for every payload size up to the limit including empty ones. "
  "A client that sends bytes that are not a valid frame, ends in the middle of a frame, or sends a nonsensical request to one of the daemon's own services affects at most its own later messages: the daemon survives, and every other client's messages are still delivered exactly once, in order and intact.",
  ["inputs", "schedules", "fault_sequences"],
  "Every sequence of frames and sizes, every way of cutting it into reads, interleaved over several clients, and every malformed prefix/marker/length at any frame boundary.",
  "Tests write whole messages over a local socket, so the daemon almost always reads whole headers and payloads; partial reads, resumed frames and malformed headers are not driven.",
  [RT, "src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtEncoder.c"],
  [("client read state machine", RT + ": rtConnectedClient_Read"), ("header codec", "src/rtmessage/rtMessageHeader.c: rtMessageHeader_Decode")],
  [("client read state", "preamble/header/payload progress", RT)], ["bytes received by each peer"])

p("C01", "Every request ends exactly once, with its own response or a timeout",
  "For every request issued on a connection, the caller gets back exactly one outcome: the payload of the response that answers that very request, if it arrives before the deadline, or else the timeout (or undeliverable/connection-lost) error not before its deadline. "
  "Responses that are late, duplicated, reordered, unsolicited or addressed to a request already completed never complete, alter or delay another request, whatever the number of threads issuing requests concurrently.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of concurrent requests from several threads with responses that are reordered, delayed beyond the deadline, duplicated, dropped, unknown, or undeliverable.",
  "The tests run against a well-behaved daemon that answers promptly, in order and once; late, duplicate and reordered responses never occur.",
  [CON],
  [("pending request list keyed by sequence number", CON + ": rtConnection_SendRequestInternal / rtConnection_Read")],
  [("pending_requests_list", "requests awaiting a response", CON)],
  ["return values and payloads of request calls against a scripted daemon"])

p("C02", "Inbound messages reach the right listener in order; listeners survive reconnect",
  "Each message received on a connection is handed exactly once, unmodified and in arrival order, to the listener whose registration it is addressed to (or to the default handler), never two at a time, as long as no more than 25 messages wait to be handled; a listener that was removed is given no message that arrives afterwards. "
  "After the daemon connection is lost and re-established, every listener still registered by the application is registered again with the daemon, exactly once, and no removed one is (one that is added or removed at that very time may be announced besides, and what the daemon knows in the end is right); requests in flight then end at their deadline at the latest rather than hang, and later requests work.",
  ["schedules", "fault_sequences", "histories"],
  "Every history of adding and removing listeners, inbound bursts, and daemon losses at any point.",
  "Tests have one or two listeners that exist for the life of the process and a daemon that never goes away.",
  [CON],
  [("reader/dispatch threads", CON + ": rtConnection_ReaderThread / rtConnection_CallbackThread"), ("reconnect", CON + ": rtConnection_EnsureRoutingDaemon / rtConnection_ConnectAndRegister")],
  [("listeners", "registered listeners with expression, id, callback", CON)],
  ["callback invocations", "frames the scripted daemon receives after reconnect"])

p("D01", "A get or set reaches the one provider handler and returns its verdict and value",
  "Getting or setting a registered property through the bus calls exactly the handler of the component that registered it, once, with the full property name and (for sets) a value identical in type and content, the requester's session id and the commit flag; the caller receives exactly what that handler returned: the value it supplied unchanged in name, type and content, or its error code. "
  "Names with no provider, wildcards in sets, elements without the needed handler, tables, events and methods used as properties yield the documented error and call no handler.",
  ["inputs", "histories"],
  "Every element kind (property, table row property, event, method, table), handler combination, value type and boundary content, error code and history of registrations.",
  "Tests check a fixed set of properties with plausible values; the mapping of every error code, every value type at its boundaries and every handler combination is not swept.",
  [RB, EL, CORE, "src/rbus/rbus_value.c", "src/rbus/rbus_property.c", "src/core/rbuscore_message.c"],
  [("provider get dispatch", RB + ": _get_callback_handler / _get_single_dml_handler"), ("provider set dispatch", RB + ": _set_callback_handler"), ("client side", RB + ": rbus_get / rbus_set"), ("value codec", RB + ": rbusValue_appendToMessage / rbusValue_initFromMessage")],
  None, ["return code and value at the consumer", "handler invocations at the provider"])

p("D02", "A multi-property set is all or nothing and reports the first failure",
  "Setting several properties in one call either succeeds, and then every property has its new value, or fails with the error of the property that was refused and names that property, and then every property of the call that a provider had already accepted is back at the value it had before the call. "
  "This holds whether the properties live in one component or several, and wherever in the list the refusal, missing element or read-only property is; only a property that its provider cannot read, or whose old value its provider refuses, may keep its new value.",
  ["inputs", "histories", "fault_sequences"],
  "Every list of properties spread over one or more components in every order, with a failure (handler error, read-only, unknown element, unknown component, provider that does not answer) at any position.",
  "Tests fail a multi-set only in one or two fixed shapes and look only at the return code.",
  [RB],
  [("rollback in one component", RB + ": _set_callback_handler"), ("rollback across components", RB + ": _setMultiInternal")],
  [("cachedProperties", "previous values used to undo", RB)],
  ["handler invocations", "values read back afterwards", "return code and failed name"])

p("D03", "Multi and wildcard gets return exactly the matching readable properties",
  "A get over several names, a partial path ending in '.', or a wildcard path returns exactly the set of registered readable properties (including those of every current table row, across all components) that the names or pattern match, each once, with the value its provider's handler returned. "
  "Properties outside the pattern are never returned, and if any explicitly named property cannot be read the call fails rather than returning a partial result.",
  ["inputs", "histories"],
  "Every registered tree (nested tables, several components), row history, and query: list of names, partial path, row wildcard, and mixtures.",
  "Tests compare a few wildcard queries with hand-written expectations on a fixed tree.",
  [RB, EL, TREE],
  [("wildcard resolution at the provider", RB + ": _get_recursive_wildcard_handler / get_recursive_wildcard"), ("component discovery and batching", RB + ": rbus_getExt")],
  None, ["property list returned to the consumer"])

p("D04", "Tables: rows, instance numbers and aliases follow the operations performed",
  "After any sequence of row additions and removals (by consumers through the bus or by the provider itself), the set of rows with their instance numbers and aliases that every query sees is exactly what the successful operations imply: an added row and everything beneath it becomes addressable by number and by alias, a removed row and everything beneath it is gone, no other row is affected, and no two rows of a table share an instance number (aliases are the provider's to keep distinct). "
  "Failed operations (missing table, missing row, duplicate, handler refusal) report an error and change nothing, and each successful one raises exactly one matching row-created or row-deleted notification to subscribers of that table.",
  ["histories", "inputs"],
  "Every history of add/remove/register/unregister row operations with and without aliases on plain and nested tables.",
  "Tests add and remove a few rows in fixed order; arbitrary histories with aliases, nested tables and failures are not enumerated.",
  [RB, EL],
  [("row instantiation", EL + ": instantiateTableRow / deleteTableRow"), ("row API", RB + ": rbusTable_addRow / rbusTable_removeRow / rbusTable_registerRow / rbusTable_unregisterRow / rbusTable_getRowNames")],
  [("element tree", "templates and row instances", EL)],
  ["rbusTable_getRowNames", "rbusElementInfo_get", "gets through rows", "row events"])

p("D05", "Each method call runs once and its outcome returns to its caller once",
  "A synchronous or asynchronous method invocation runs the registered handler of that method exactly once, with the method name and input parameters unchanged, and delivers the handler's result code and output parameters (or the error) to that invocation and no other, exactly once, also when the provider answers later, out of order or never (then a timeout error). "
  "Methods that are unknown, not methods, or have no handler yield an error and run nothing.",
  ["schedules", "inputs", "histories"],
  "Every mix of concurrent synchronous and asynchronous calls from several consumers, with immediate, deferred, reordered and missing provider responses.",
  "Tests invoke one method at a time with immediate or fixed-delay answers.",
  [RB, CORE],
  [("invocation", RB + ": rbusMethod_Invoke / rbusMethod_InvokeAsync / _method_callback_handler / rbusMethod_SendAsyncResponse")],
  None, ["handler invocations", "results at the caller"])

p("E01", "A published event reaches each current subscriber exactly once, in order",
  "Each successful publish of an event (general events, and row events of table rows through wildcard subscriptions) is delivered exactly once to every subscription to it that was in force, with the event name, type, data and user context of that subscription, and to no one whose subscription was never made, was rejected or was withdrawn; events of one provider reach a subscriber in publication order. "
  "Publishing reports whether there were subscribers, and publishing an event that is not registered reports that it does not exist and delivers nothing.",
  ["histories", "schedules"],
  "Every history of subscribe / unsubscribe / publish / close operations by several consumers and providers on overlapping (concrete, row, wildcard) event names.",
  "Tests use one consumer and a fixed subscribe-publish-unsubscribe script.",
  [RB, SUB, CORE],
  [("publish", RB + ": rbusEvent_Publish / rbusEvent_PublishRawData; " + CORE + ": rbus_publishSubscriberEvent"), ("dispatch", RB + ": _event_callback_handler; " + CORE + ": master_event_callback")],
  [("subscriptions", "provider-side subscriber records", SUB), ("eventSubs", "consumer-side subscription records", RB)],
  ["event callbacks at each consumer", "publish return codes"])

p("E02", "Subscriptions: one per identity, provider decides, groups are all-or-nothing",
  "A consumer holds at most one subscription per event, filter, interval and duration: an identical second one is refused and leaves the first working; the provider's subscribe handler is told of each added and removed subscription exactly once and its refusal is returned to the consumer and leaves no subscription on either side. "
  "A call that subscribes to several events at once either makes them all or, on the first failure, none; unsubscribing what was not subscribed is an error and changes nothing, and a subscription with initial-value publishing delivers the current value exactly once. Filters against an object or property value are refused.",
  ["histories", "inputs"],
  "Every history of single and grouped subscribe / unsubscribe calls with accept/refuse decisions of the provider, duplicate entries and failures at any position in a group.",
  "Tests subscribe each event once in one order; duplicates, refusals inside a group and partial undo are covered by at most one fixed example.",
  [RB, SUB],
  [("consumer", RB + ": rbusEvent_SubscribeWithRetries / rbusEvent_SubscribeEx / rbusEvent_UnsubscribeEx"), ("provider", RB + ": _event_subscribe_callback_handler; " + SUB + ": rbusSubscriptions_addSubscription")],
  None, ["return codes", "subscribe handler calls", "later deliveries"])

p("E03", "A filtered subscription fires exactly when the filter's truth changes",
  "For a value-change subscription with a filter (any relational operator on any value type, combined with and/or/not), an event is delivered exactly for the updates that turn the filter from false to true or from true to false, carrying a flag that says which, and for no other update. "
  "Subscriptions without a filter get every update, and filters of different subscriptions to the same event do not influence one another.",
  ["inputs", "histories"],
  "Every filter expression and every sequence of published (old,new) value pairs.",
  "Tests use one or two relational filters and a monotone counter.",
  [RB, "src/rbus/rbus_filter.c", "src/rbus/rbus_value.c"],
  [("evaluation", "src/rbus/rbus_filter.c: rbusFilter_Apply"), ("trigger rule", RB + ": rbusEvent_Publish")],
  None, ["event callbacks"])

p("E04", "A vanished consumer leaves no subscription behind and disturbs nobody else's",
  "When a consumer's process ends or closes its handle without unsubscribing, each provider drops all of that consumer's subscriptions (whatever their filter, interval or duration), tells its subscribe handler once for each as an unsubscribe, stops delivering, polling and timing for them, and keeps every other consumer's subscriptions working (for the death of a process, once the provider is receiving disconnect notices; today a provider receives them only while it holds a private connection, see known_findings.txt). "
  "Afterwards a new consumer can make the same subscriptions afresh.",
  ["crash_points", "histories"],
  "Every set of subscriptions of several consumers and every moment at which one of them is killed.",
  "Tests always unsubscribe and close in order; no test kills a subscriber.",
  [RB, SUB, RT],
  [("disconnect notice", RB + ": _client_disconnect_callback_handler"), ("cleanup", SUB + ": rbusSubscriptions_handleClientDisconnect")],
  None, ["subscribe-handler calls at the provider", "publish return codes", "deliveries"])

p("E05", "Subscriptions survive a provider restart",
  "When a provider ends (orderly or killed) and a component of the same name registers the same elements again, every subscription that live consumers still hold to those elements is in force again without the consumer doing anything: events published afterwards reach them once, with the same filter, interval, raw and initial-value options, and the provider's subscribe handler is told of each once; one that the handler now refuses ends. "
  "Subscriptions withdrawn before or while the provider was away deliver nothing, and those belonging to consumers that have gone do not come back; a subscription to a row's element ends with the row.",
  ["crash_points", "histories"],
  "Every set of subscriptions and every moment at which the provider is killed or closed and restarted, with consumers coming and going in between.",
  "One test restarts a provider in one fixed configuration.",
  [SUB, RB],
  [("persistent record", SUB + ": rbusSubscriptions_saveCache / rbusSubscriptions_loadCache"), ("re-establishment", SUB + ": rbusSubscriptions_resubscribeElementCache / rbusSubscriptions_resubscribeRowElementCache")],
  [("subscription cache file", "subscriptions of a component", SUB)],
  ["deliveries and handler calls after restart"])

p("E06", "Value-change subscribers see every settled change exactly once with old and new",
  "While a value-change subscription is in force on a property without its own notification logic, each change of the property's value that lasts longer than the polling period produces exactly one event carrying the previous and the new value, changes of other properties produce none, an unchanged value produces none, and consecutive events chain (each old value is the previous event's new value); with a filter, exactly one event for each such change of the filter's outcome. An event names the component that made the change: the one that set the value, or the provider. "
  "Detection stops when the last such subscription ends and continues for the remaining ones.",
  ["schedules", "histories"],
  "Every history of value changes, subscriptions and unsubscriptions relative to the polling cycle.",
  "Tests change one value a fixed number of times with fixed sleeps.",
  ["src/rbus/rbus_valuechange.c", RB],
  [("poller", "src/rbus/rbus_valuechange.c: rbusValueChange_pollingThreadFunc / AddPropertyNode / RemoveNode")],
  None, ["event callbacks", "get-handler calls made by the poller"])

p("E07", "Interval subscriptions tick at their interval and end at their duration",
  "A subscription with an interval delivers the property's then-current value (with a wildcard: that of each present row) once per interval (which starts again after the get handler returned), independently of publications and of other subscriptions, and with a duration it delivers exactly one duration-complete notice after duration/interval events and then ceases to exist on both sides. "
  "Unsubscribing stops the ticks at once.",
  ["schedules", "histories"],
  "Every combination of intervals, durations, and concurrent subscriptions, unsubscriptions and value changes.",
  "Tests use one interval subscription with one fixed duration.",
  ["src/rbus/rbus_intervalsubscription.c", RB],
  [("interval publisher", "src/rbus/rbus_intervalsubscription.c: PublishingThreadFunc"), ("duration completion", RB + ": _event_callback_handler DURATION_COMPLETE")],
  None, ["event callbacks with arrival times"])

p("E08", "An asynchronous subscribe reports its outcome exactly once",
  "Each asynchronous subscribe call calls its completion handler exactly once: with success once a provider that appears before the timeout has accepted (events published from then on are delivered), with the provider's error if it refuses, or with a timeout error if none appears in time. "
  "A pending one that is cancelled or whose handle is closed makes no callback and no subscription afterwards.",
  ["schedules", "histories", "fault_sequences"],
  "Every order of asynchronous subscriptions, provider appearance, refusal, cancellation, handle close and timeout.",
  "Tests start the provider either before or at one fixed delay after the subscribe.",
  ["src/rbus/rbus_asyncsubscribe.c", RB],
  [("retrier", "src/rbus/rbus_asyncsubscribe.c: rbusAsyncSubscribeRetrier_*"), ("entry points", RB + ": rbusEvent_SubscribeAsync / rbusEvent_SubscribeExAsync")],
  None, ["completion handler calls", "deliveries"])

p("S01", "At most one session exists, and only its id ends it",
  "The session manager has at most one current session: creating one while one is active fails and leaves it unchanged, ending succeeds only for the current session's id, every query returns the current id (zero when none), and each change is announced once, with the new id, to subscribers. "
  "A set that is not committed, or that carries a given session id, reaches the provider with that session id and commit flag.",
  ["histories", "schedules"],
  "Every interleaving of create / current / close requests by several clients, with right and wrong ids.",
  "One test creates and closes one session.",
  ["src/session_manager/session_manager.c", RB],
  [("session state", "src/session_manager/session_manager.c: callback handlers"), ("client API", RB + ": rbus_createSession / rbus_getCurrentSession / rbus_closeSession")],
  None, ["return codes and ids", "currentSessionIDSignal events"])

p("L01", "Closing a handle withdraws all it made, and nothing of any other handle",
  "Closing a handle withdraws everything it made and nothing else: its registered elements are unknown on the bus and can be registered again by anybody, its event subscriptions and message listeners end, and once the call that closed it has returned no callback of it runs. Opening a component name that the same process has open closes the earlier handle in the same way. "
  "A closed handle is refused: closing it again, registering, unregistering, getting, setting, subscribing, unsubscribing and invoking methods with it report an invalid handle. "
  "Closing a handle, or withdrawing elements, subscriptions or listeners with it, leaves everything of other handles working, those of the same process included; and opening and closing can be repeated in any order.",
  ["histories", "schedules"],
  "Every sequence of opening and closing several handles in several processes with registrations, subscriptions, listeners and deliveries between and at the same time.",
  "Tests open once at start and close once at the end.",
  [RB, "src/rbus/rbus_handle.c", CORE],
  [("open/close", RB + ": rbus_open / rbus_close"), ("handle list", "src/rbus/rbus_handle.c")],
  None, ["return codes", "bus-visible registrations", "deliveries"])

p("M01", "Raw topic messages reach every current listener once; confirmations are honest",
  "A message sent to a topic is delivered once, with its topic and bytes unchanged and in sending order, to the handler of every current listener on exactly that topic, and never to one that was removed, or whose handle was closed, before the message was sent; a send that asks for confirmation succeeds exactly if a listener received it and otherwise reports that there is no destination. "
  "Removing one listener, or all listeners of a handle, removes exactly those.",
  ["histories", "inputs"],
  "Every history of add / remove listener and send operations over several handles and topics.",
  "Tests add two or three listeners with fixed topics and send a fixed sequence.",
  ["src/rbus/rbus_message.c", CORE],
  [("listeners", "src/rbus/rbus_message.c: rbusMessage_AddListener / RemoveListener / RemoveAllListeners"), ("send", "src/rbus/rbus_message.c: rbusMessage_Send")],
  None, ["handler calls", "return codes"])

p("X01", "A direct connection behaves exactly like the bus, and falls back to it",
  "After a consumer opens a direct connection for an element, gets and sets of that element give the same results as over the bus for every history, go only to the provider of that element, and continue to work (through the daemon) after the direct connection is closed or the provider's endpoint goes away. "
  "Opening for an unknown element fails, and closing one direct connection leaves the others of the process working.",
  ["histories", "fault_sequences"],
  "Every history of opening and closing direct connections to one or more providers, interleaved with gets/sets and provider exits.",
  "Tests open one direct connection to one provider.",
  [RB, CORE, "src/rtmessage/rtrouteBase.c"],
  [("direct mode", RB + ": rbus_openDirect / rbus_closeDirect; " + CORE + ": rbuscore_createPrivateConnection / FindClientPrivateConnection")],
  None, ["values and return codes", "handler invocations"])

p("T01", "Every task given to the pool runs exactly once within its thread limit",
  "Each task that the thread pool accepts is run exactly once, never before it is submitted and, as long as the pool is not being destroyed, without waiting while fewer tasks than the configured number of threads run; tasks are started in submission order and at most that number run at the same time. A task that is refused never runs. "
  "Destroying the pool waits, up to the given time, for the tasks accepted before; tasks that have not started by then never run, and the pool's memory stays valid until its last thread has left it and is released exactly once.",
  ["schedules"],
  "Every interleaving of submitters, workers, idle expiry of workers and destruction.",
  "The unit test submits a burst of independent tasks and counts them once.",
  ["src/rtmessage/rtThreadPool.c"],
  [("task queue and worker growth/expiry", "src/rtmessage/rtThreadPool.c: rtThreadPool_RunTask / worker thread")],
  None, ["task start/finish order"])

p("K01", "The bus's container types behave as the lists, vectors and maps they claim to be",
  "For every sequence of operations, the library's list, vector and hash map hold exactly the elements that the sequence implies, in the implied order, with sizes, lookups and traversal (including while removing the current element) consistent with that, and each removed or replaced element is handed to its destructor exactly once.",
  ["histories", "inputs"],
  "Every sequence of insertions, removals, lookups and traversals, with and without destructors and with recycled nodes.",
  "Unit tests run short scripted sequences per container.",
  ["src/rtmessage/rtList.c", "src/rtmessage/rtVector.c", "src/rtmessage/rtHashMap.c"],
  [("containers", "src/rtmessage/rtList.c, rtVector.c, rtHashMap.c")],
  None, ["container contents after each operation", "destructor calls"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
