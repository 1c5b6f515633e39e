"""The checks: property -> stages."""
from .engine import Design, Conf
from . import router_h, framing_h, datamodel_h, methods_h, events_h, watch_h, asyncsub_h, containers_h, threadpool_h, session_h, messages_h, conn_h, handles_h

def router(focus, profile, n, depth=60):
    return Conf("Router/" + profile, "RouterGen", "RouterGen.cfg", "RouterTrace", "RouterTrace.cfg",
                lambda b, o: router_h.Replay(b, o).run(), n, depth, flavour="asan",
                gconsts={"Profile": '"%s"' % profile}, tconsts={"Focus": '"%s"' % focus})

def framing(n, depth=80):
    return Conf("Framing", "FramingGen", "FramingGen.cfg", "FramingTrace", "FramingTrace.cfg",
                lambda b, o: framing_h.Replay(b, o).run(), n, depth, flavour="asan")

ROUTER_MC = Design("RouterMC", "RouterMC.cfg", {"MaxRoutes": 2, "MaxTopics": 2}, {"MaxRoutes": 2, "MaxTopics": 3})
FRAMING_MC = Design("Framing", "FramingMC.cfg", {"MaxA": 3, "MaxB": 0}, {"MaxA": 2, "MaxB": 1})

DATA_MC = Design("DataModelMC", "DataModelMC.cfg", {"MaxRows": 1, "Wide": "FALSE"}, {"MaxRows": 2, "Wide": "TRUE"})
SETMULTI = Design("SetMulti", "SetMulti.cfg")

def data(focus, profile, n, depth=60):
    return Conf("DataModel/" + profile, "DataModelGen", "DataModelGen.cfg", "DataModelTrace", "DataModelTrace.cfg",
                lambda b, o: datamodel_h.Replay(b, o).run(), n, depth, flavour="asan",
                gconsts={"Profile": '"%s"' % profile}, tconsts={"Focus": '"%s"' % focus})

def ghosts():
    """names withdrawn by a running component, in wildcard answers (a finding that is not repaired)"""
    def known(trace, at, notes):
        e = trace[at] if at < len(trace) else {}
        return "unregistered-in-wildcard" if e.get("op") == "getw" and [q[0] for q in e.get("props", [])].count(["A", "y"]) else None
    return Conf("DataModel/unregistered", "DataModelGen", "DataModelGen.cfg", "DataModelTrace", "DataModelTrace.cfg",
                lambda b, o: datamodel_h.Replay(b, o).run(), (0, 0), 60, flavour="asan",
                gconsts={"Profile": '"wild"'}, tconsts={"Focus": '"D03"'}, fixed=datamodel_h.ghost_ops, known=known)

RPC_MC = Design("RPC", "RPC.cfg", {"MaxSeq": 2}, {"MaxSeq": 3})

def methods(n, depth=60):
    return Conf("Methods", "MethodsGen", "MethodsGen.cfg", "MethodsTrace", "MethodsTrace.cfg",
                lambda b, o: methods_h.Replay(b, o).run(), n, depth, flavour="asan", gconsts={"Profile": '"mix"'}, workers=12)

EVENTS_MC = [
    Design("EventsMC", "EventsMC.cfg", {"MNames": '{"E.g!", "T.1.ev!"}', "MHandles": '{"Kh", "Lh"}', "MFilters": "<-F0", "MRefuse": '{"E.g!"}', "MRaw": "{FALSE}"},
           {"MNames": '{"E.v", "T.*.ev!", "T.1.ev!"}', "MHandles": '{"Kh", "Lh"}', "MFilters": "<-F0", "MRefuse": '{"E.v", "T.1.ev!"}', "MRaw": "{FALSE}"}),
    Design("EventsMC", "EventsMC.cfg", {"MNames": '{"E.g!", "T.1.ev!"}', "MHandles": '{"Kh"}', "MFilters": "<-F1", "MRefuse": "{}", "MRaw": "{FALSE, TRUE}"},
           {"MNames": '{"E.g!", "T.1.ev!"}', "MHandles": '{"Kh", "Lh"}', "MFilters": "<-F1", "MRefuse": "{}", "MRaw": "{FALSE, TRUE}"})]

def events(profile, n, depth=60):
    return Conf("Events/" + profile, "EventsGen", "EventsGen.cfg", "EventsTrace", "EventsTrace.cfg",
                lambda b, o: events_h.Replay(b, o).run(), n, depth, flavour="asan", gconsts={"Profile": '"%s"' % profile}, workers=20 if profile == "vanish" else 8)   # a vanished consumer is waited for, mostly

def unwatched():
    """a provider that never opened a private connection is not told of vanished consumers (a finding that is not repaired)"""
    def known(trace, at, notes):
        e = trace[at] if at < len(trace) else {}
        return "no-disconnect-notice" if e.get("op") == "kill" and not trace[0]["watch"] and at == 2 and not e["told"] else None
    return Conf("Events/unwatched", "EventsGen", "EventsGen.cfg", "EventsTrace", "EventsTrace.cfg",
                lambda b, o: events_h.Replay(b, o).run(), (0, 0), 60, flavour="asan", gconsts={"Profile": '"vanish"'}, fixed=events_h.unwatched_ops, known=known)

WATCH_T = {"Poll": 2000, "Eps": 20, "Slack": 700, "Lag": 500, "Grace": 400}
def watch(profile, n, depth=34):
    return Conf("Watch/" + profile, "WatchGen", "WatchGen.cfg", "WatchTrace", "WatchTrace.cfg",
                lambda b, o: watch_h.run(b, o), n, depth, flavour="asan", gconsts=dict(WATCH_T, Profile='"%s"' % profile), tconsts=WATCH_T, workers=20)

ASYNC_T = {"Eps": 20, "Slack": 700, "Lag": 500, "Grace": 400, "Answer": 1000}
def asyncsub(profile, n, depth=34):
    return Conf("AsyncSub/" + profile, "AsyncSubGen", "AsyncSubGen.cfg", "AsyncSubTrace", "AsyncSubTrace.cfg",
                lambda b, o: asyncsub_h.run(b, o), n, depth, flavour="asan", gconsts=dict(ASYNC_T, Profile='"%s"' % profile), tconsts=ASYNC_T, workers=20)

def containers(profile, n, depth=150):
    return Conf("Containers/" + profile, "ContainersGen", "ContainersGen.cfg", "ContainersTrace", "ContainersTrace.cfg",
                containers_h.replay, n, depth, flavour="asan", gconsts={"Profile": '"%s"' % profile})

def conn(focus, n, depth=30):
    return Conf("Conn/" + focus, "ConnGen", "ConnGen.cfg", "ConnTrace", "ConnTrace.cfg", conn_h.replay, n, depth, flavour="asan", gconsts={"Focus": '"%s"' % focus})

PROPS = {
    "R01": ("model_checking", lambda: [ROUTER_MC, router("R01", "mix", (300, 3000)), router("R01", "crash", (100, 1000))]),
    "R02": ("model_checking", lambda: [ROUTER_MC, router("R02", "own", (400, 4000))]),
    "R03": ("model_checking", lambda: [ROUTER_MC, router("R03", "crash", (350, 3000)), framing((60, 600))]),
    "R04": ("model_checking", lambda: [ROUTER_MC, router("R04", "query", (400, 4000))]),
    "R05": ("model_checking", lambda: [FRAMING_MC, framing((400, 4000))]),
    "D01": ("model_checking", lambda: [DATA_MC, data("D01", "mix", (500, 5000))]),
    "D02": ("model_checking", lambda: [DATA_MC, SETMULTI, data("D02", "set", (400, 4000))]),
    "D03": ("model_checking", lambda: [DATA_MC, data("D03", "wild", (300, 3000)), ghosts()]),
    "D05": ("model_checking", lambda: [RPC_MC, methods((300, 3000))]),
    "D04": ("model_checking", lambda: [DATA_MC, data("D04", "table", (400, 4000))]),
    "E01": ("model_checking", lambda: EVENTS_MC[:1] + [events("mix", (400, 4000))]),
    "E02": ("model_checking", lambda: EVENTS_MC[:1] + [events("sub", (400, 4000))]),
    "E03": ("model_checking", lambda: EVENTS_MC[1:] + [events("filter", (400, 4000))]),
    "E04": ("model_checking", lambda: EVENTS_MC[:1] + [events("vanish", (120, 1200)), watch("vanish", (40, 600)), unwatched()]),
    "E05": ("model_checking", lambda: EVENTS_MC[:1] + [events("restart", (400, 4000))]),
    "E06": ("model_checking", lambda: [Design("WatchMC", "WatchMCChange.cfg", {"MaxOps": 3, "MaxT": 6}, {"MaxOps": 4, "MaxT": 8}, tmult=4), Design("WatchMC", "WatchMCRows.cfg", {"MIvs": "{0}"}, {"MIvs": "{0}", "MaxOps": 5}, tmult=4),
                                       watch("vc", (130, 2000)), watch("restart", (40, 600))]),
    "E07": ("model_checking", lambda: [Design("WatchMC", "WatchMCInterval.cfg", {"MaxOps": 3}, {"MaxOps": 4, "MaxT": 8}, tmult=4),
                                       watch("iv", (130, 2000)), watch("other", (50, 800))]),
    "E08": ("model_checking", lambda: [Design("AsyncSubMC", "AsyncSubMC.cfg", {"N": 3, "Restarts": 2}, {"N": 4, "Restarts": 3}, tmult=4), asyncsub("mix", (160, 2400)), asyncsub("kill", (50, 800))]),
    "K01": ("model_checking", lambda: [Design("ListMC", "ListMC.cfg", {"N": 3}, {"N": 4, "Data": "{1, 2, 3, 4}"}), Design("HashMC", "HashMC.cfg", {"Load": 75}, {"Keys": "{1, 2, 3, 4, 5, 6, 7}", "Init0": 1, "Load": 50}),
                                       containers("list", (120, 1500)), containers("vec", (80, 1000)), containers("dup", (40, 500)), containers("map", (160, 2000))]),
    "S01": ("model_checking", lambda: [Design("SessionMC", "SessionMC.cfg", {"Calls": 3}, {"Calls": 4, "Losses": 2}, timeout=900),
                                       Conf("Session", "SessionGen", "SessionGen.cfg", "SessionTrace", "SessionTrace.cfg", session_h.replay, (160, 3000), 30, flavour="asan")]),
    "M01": ("model_checking", lambda: [Design("MessagesMC", "MessagesMC.cfg", {"Listeners": "{1, 2}"}, {}, timeout=900),
                                       Design("MessagesMC", "MessagesMC.cfg", {"Listeners": "{1, 2}", "Confirm": "FALSE", "N": 3}, {"Confirm": "FALSE"}, timeout=900),
                                       Conf("Messages", "MessagesGen", "MessagesGen.cfg", "MessagesTrace", "MessagesTrace.cfg", messages_h.replay, (150, 3000), 30, flavour="asan")]),
    "C01": ("model_checking", lambda: [Design("RequestsMC", "RequestsMC.cfg", {}, {"Each": 2, "Answers": 4, "S": '{"a", "b", "c"}'}, timeout=1800), conn("requests", (120, 2400))]),
    "C02": ("model_checking", lambda: [Design("ReconnectMC", "ReconnectMC.cfg", {}, {"Losses": 3, "Sends": 2, "Ids": "{1, 2, 3}"}, timeout=1800), conn("listeners", (120, 2400))]),
    "L01": ("model_checking", lambda: [Design("HandlesMC", "HandlesMC.cfg", {"Arrivals": 2}, {"Ops": 4}, timeout=1800),
                                       Conf("Handles", "HandlesGen", "HandlesGen.cfg", "HandlesTrace", "HandlesTrace.cfg", handles_h.replay, (250, 3000), 30, flavour="asan")]),
    "T01": ("model_checking", lambda: [Design("ThreadPoolMC", "ThreadPoolMC.cfg", {}, {"T": 5, "N": 5}, timeout=900), Design("ThreadPoolMC", "ThreadPoolMC.cfg", {"Wait": '"limited"'}, {"Wait": '"limited"', "Max": 3, "T": 5, "N": 5}, timeout=900),
                                       Design("ThreadPoolMC", "ThreadPoolMCPrompt.cfg", {}, {"T": 5, "N": 5}, timeout=900),
                                       Conf("ThreadPool", "ThreadPoolGen", "ThreadPoolGen.cfg", "ThreadPoolTrace", "ThreadPoolTrace.cfg", threadpool_h.replay, (140, 1800), 45, flavour="asan")]),
}

R = "Every message sequence of the small model is explored (2 clients, 2 routes, the topics of RouterMC); the real daemon (AddressSanitizer build) is compared step by step with the specification on generated histories of 4 clients. Assumes TLC, the wire-level harness, and that clients read their sockets."
D = "Every operation sequence of the small data model (two components, one table) is explored; generated histories of two provider and two consumer processes are replayed through the real library and daemon (AddressSanitizer build) and each recorded result, handler call, provider store and row notification is compared with the specification. Operations are issued one after another: concurrent operations are not explored here. Assumes TLC and the JSON-driven test application."
E = "Every history of the small event model is explored (names, filters and handles as in EVENTS_MC); generated histories of two providers and three consumer handles in two processes are replayed through the real library and daemon (AddressSanitizer build), including publications that overlap with subscribing, and each result, subscribe handler call and delivered event is compared with the specification. Assumes TLC, the JSON-driven test application, and consumers that keep up (the library drops events beyond 25 undelivered ones)."
W = "Every history of the small timed model is explored (discrete time, late threads, names and filters as in the WatchMC configurations): the polling and interval threads meet every requirement of the specification. Generated histories of a provider and three consumer handles in two processes run against the real library and daemon (AddressSanitizer build) with time accelerated four times by an interposed clock, and each event, get-handler call and result is compared with the specification, with tolerances of 0.7 s for lateness. Changes that last less than a polling period may be reported or not. Assumes TLC, the test application, and a machine that is not stalled for longer than the tolerance (a rejected run counts only if it is rejected again)."
A = "Every history of the small model is explored (a thread that makes one attempt at a time, cancellation and closing at every moment of an attempt, a provider that comes, goes, accepts and refuses), including that each request ends. Generated histories of a provider, three consumer handles in two processes and time run against the real library and daemon (AddressSanitizer build) with time accelerated four times, and each outcome, event and result is compared with the timed specification. A provider that takes longer than the library's fixed second to answer a subscribe request is not generated. Assumes TLC, the test application, and a machine that is not stalled for longer than the tolerance of 0.7 s (a rejected run counts only if it is rejected again)."
NOTES = {
    "C01": "Every interleaving of the pending list, its mutex and its semaphores is explored for a few threads and requests while the daemon answers any request at any time, twice, late or never (each request ends once, with its own response or none; no response touches an entry that is gone). A scripted daemon then answers generated requests of up to six threads of the real library (AddressSanitizer build) reordered, twice, late, right at the deadline, as undeliverable, for requests long over or never made, loses the connection and is destroyed under them; each outcome, payload and time is judged by the specification. Times are accelerated; an outcome may be up to 2.5 (accelerated) seconds late. Assumes the scripted daemon (vlib/conn_h.py), which cuts no frame it answers with (R05 covers framing).",
    "C02": "Every interleaving of a reader, two senders and two losses of the connection is explored: a working connection is never replaced, the daemon ends up knowing exactly the listeners there are, everybody gets on. A scripted daemon then sends generated bursts (messages, requests, handlers that themselves send requests) to listeners of the real library (AddressSanitizer build) that come and go, also at the same time as the burst, and loses the connection at any moment, cutting frames; order, content, overlap of handlers and what is announced again are judged by the specification. Bursts stay below the library's limit of 25 messages waiting.",
    "L01": "Every interleaving of two threads that open, close and reopen handles of two names, with a thread that runs handlers of what arrives (handlers that close handles included), is explored: no handler of a handle that is gone is called or still runs, what it made is withdrawn, the connection lasts while any handle does, every close ends. Generated histories (five handles in two processes plus observers, elements, subscriptions and listeners made and withdrawn, names opened again, closed handles used, a handle closed or opened again while gets, events and messages arrive from other threads, processes killed) run against the real library and daemon (AddressSanitizer build); every result, and who answers and hears what, is compared with the specification. Only the calls named in the property verify a handle. Two processes that open the same component name are both served (the library never refused that). Closing from inside a callback is explored in the model only.",
    "M01": "Every interleaving of the small model of the daemon's and the library's listener tables and message queues is explored (listeners of one topic in two processes come and go while a sender sends, with and without confirmation). Generated histories (four handles in three processes, similar topics, bursts of binary messages from a second thread while a listener is added or removed or its handle closed, processes killed) run against the real library and daemon (AddressSanitizer build), and every handler call and result is compared with the specification. A listener that comes or goes during a burst may hear its last or first messages only. Bursts stay below the 25 messages a process keeps undelivered; the same listener is not added twice; private listeners are in X01.",
    "S01": "Every history of the small model of the session manager as built is explored (two clients, loss of the manager at any moment): it refines the atomic service specification, announces every change in order to every subscriber, and ends every request. Generated histories (up to four requests issued at once from four handles in three processes, right and wrong ids, the manager or clients killed and restarted) run against the real session manager, library and daemon (AddressSanitizer build), and each batch of results and announcements must be explained by some order of the requests. A failed attempt may or may not repeat the unchanged id to subscribers. Requests in flight at the moment the manager is killed are explored in the model only.",
    "T01": "Every interleaving of submitters (tasks that submit tasks included), workers, expiry, failed thread creation and destruction of the small pool model is explored, with liveness; generated histories run against the real pool (AddressSanitizer build) with threads held back, thread creation failing and a waiting thread's time expiring at the moment of a submission (all interposed), and the recorded starts, ends and results are compared with the specification. Assumes TLC, and that three milliseconds without a start mean that nothing more was going to start (a rejected run counts only if it is rejected again).",
    "K01": "Every history of the pointer-level list model (recycled nodes included) and of the bucket-level map model is explored against the abstract sequence and function within the stated bounds; generated histories of 150 operations run in one process per history against the real containers (AddressSanitizer build) and every result, both traversals, all lookups and every destructor call are compared with the specification. Out-of-memory paths and misuse (null or foreign nodes) are not generated.",
    "E08": A,
    "E06": W, "E07": W,
    "E01": E, "E02": E, "E03": E, "E04": E, "E05": E,
    "D01": D, "D02": D + " The batch protocol with roll-back is also explored by itself (SetMulti refines SetAtomic).", "D03": D, "D04": D,
    "D05": "The request/answer protocol (RPC: two connections, two waiting threads each) is explored completely, including liveness; generated histories of concurrent synchronous and asynchronous calls from four processes, with answers sent later, in any order or never, are replayed through the real library and each handler run and outcome is compared with the specification.",
    "R01": R, "R02": R, "R03": R, "R04": R,
    "R05": "Every interleaving and cut of the small framing model is explored (refinement of the abstract stream specification); the real daemon (AddressSanitizer build) is compared with the abstract specification on generated byte streams of 4 clients. What a client gets out of its own stream after it broke the framing is left open.",
}
