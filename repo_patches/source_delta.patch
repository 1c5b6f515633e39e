From bbfb00af44e5f0c7fe8652db56df4ecbbfecaf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 01/49] fix: daemon: unregistering an element withdraws only
 the sender's own registration

Removing a name which is not a route removed the whole topic subtree of that
name, whoever had registered it, left the removed route in the partial path
lists of its parent topics and could leave dangling route pointers there.
---
 src/rtmessage/rtRoutingTree.c | 121 ++++++++++++++++++++--------------
 src/rtmessage/rtRoutingTree.h |   4 +-
 src/rtmessage/rtrouted.c      |  10 ++-
 3 files changed, 81 insertions(+), 54 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84230ab..84836b8 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -161,37 +161,7 @@ static void tokenizeExpression(const char* expression)
     workTokenCount = i;
 }
 
-static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
-{
-    rtListItem childItem;
-    rtTreeTopic* childTopic;
-    rtListItem routeItem;
-    rtTreeRoute* route;
-    size_t size;
-    rtList_GetFront(topic->routeList, &routeItem);
-    while(routeItem)
-    {
-        rtListItem_GetData(routeItem, (void**)&route);
-
-        rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
-        /*if the route's topicList has become empty, then remove the whole route*/
-        rtList_GetSize(route->topicList, &size);
-        if(size == 0)
-            rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
-
-        rtListItem_GetNext(routeItem, &routeItem);
-    }
-
-    rtList_GetFront(topic->childList, &childItem);
-    while(childItem)
-    {
-        rtListItem_GetData(childItem, (void**)&childTopic);
-        removeTopicFromRoutes(rt, childTopic);
-        rtListItem_GetNext(childItem, &childItem);
-    }
-}
-
-static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error, int remove)
+static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error)
 {
     rtListItem item;
 
@@ -205,13 +175,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         rtListItem_GetData(item, (void**)&treeTopic);
         if(strcmp(treeTopic->name, name) == 0)
         {
-            /* we can remove if its an exact match*/
-            if(remove)
-            {
-              removeTopicFromRoutes(rt, treeTopic);
-              rtList_RemoveItem(parent->childList, item, freeTreeTopic);
-              return NULL;
-            }
             return treeTopic;
         }
         /* if a query contains a row instance id, a square bracket alias, or wildcard * 
@@ -228,8 +191,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         */
         else if(treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
         {
-            /* note that we don't handle the remove flag here because you should never create or remove instance ids themselves in the tree
-               however, as a safeguard we only do remove in the above branch when name is an exact match*/
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
@@ -303,6 +264,39 @@ static void optimizeTopicsBackpropagate(rtTreeTopic* topic, rtTreeRoute* route)
         optimizeTopicsBackpropagate(topic->parent, route);
 }
 
+/*is route listening to any topic below treeTopic*/
+static int isRouteBelowTopic(rtTreeTopic* treeTopic, rtTreeRoute* route)
+{
+    rtListItem item;
+    rtList_GetFront(route->topicList, &item);
+    while(item)
+    {
+        rtTreeTopic* topic;
+        rtListItem_GetData(item, (void**)&topic);
+        for(topic = topic->parent; topic; topic = topic->parent)
+        {
+            if(topic == treeTopic)
+                return 1;
+        }
+        rtListItem_GetNext(item, &item);
+    }
+    return 0;
+}
+
+/*remove a topic which has neither routes nor children*/
+static void removeTopicIfUnused(rtTreeTopic* treeTopic)
+{
+    size_t numChildren = 0;
+    size_t numRoutes = 0;
+
+    if(treeTopic->childList)
+        rtList_GetSize(treeTopic->childList, &numChildren);
+    if(treeTopic->routeList)
+        rtList_GetSize(treeTopic->routeList, &numRoutes);
+    if(numChildren == 0 && numRoutes == 0)
+        rtList_RemoveItemByCompare(treeTopic->parent->childList, treeTopic, rtList_ComparePointer, freeTreeTopic);
+}
+
 /* 
     This does a depth first search for treeTopics having the route.
     If a treeTopic has the route, the route is removed from the treeTopic.
@@ -507,7 +501,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     int error = 0;
     for(i = 0; i < workTokenCount; ++i)
     {
-        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
+        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error);
         if (error)
         {
             rtLog_Debug("Rejecting data registraion as per standard");
@@ -548,7 +542,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL);
 
         if(!treeTopic)
             return;
@@ -612,7 +606,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
           However, "Foo" doesn't have the route.  "Foo.{i}" has the route we want.
           So we need to search for the "{i}" child here and use its route.
         */
-        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL, 0);
+        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL);
         if(curlyChild)
         {
           *routes = curlyChild->routeList;
@@ -656,24 +650,51 @@ void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route)
     rtList_RemoveItem(rt->routeList, routeItem, freeTreeRoute);
 }
 
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+rtError rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* routeData)
 {
     int i;
     rtTreeTopic* treeTopic = rt->topicRoot;
+    rtTreeRoute* route;
+    size_t before = 0, after = 0;
 
     rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
 
+    route = getTreeRoute(rt, routeData, NULL);
     tokenizeExpression(topic);
-    if(workTokenCount == 0)
-        return;
+    if(!route || workTokenCount == 0)
+        return RT_PROP_NOT_FOUND;
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, i == workTokenCount-1);
+        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL);
 
-        if(!treeTopic)
-            return;
+        if(!treeTopic || strcmp(treeTopic->name, workTokens[i].name) != 0)
+            return RT_PROP_NOT_FOUND;
+    }
+
+    if(!treeTopic->routeList)
+        return RT_PROP_NOT_FOUND;
+
+    rtList_GetSize(treeTopic->routeList, &before);
+    rtList_RemoveItemByCompare(treeTopic->routeList, route, rtList_ComparePointer, NULL);
+    rtList_GetSize(treeTopic->routeList, &after);
+    if(before == after)
+        return RT_PROP_NOT_FOUND;
+
+    rtList_RemoveItemByCompare(route->topicList, treeTopic, rtList_ComparePointer, NULL);
+
+    /*topics above this one must no longer lead to the route, unless the route still has another topic below them,
+      and topics which have become unused are removed*/
+    while(treeTopic->parent)
+    {
+        rtTreeTopic* parent = treeTopic->parent;
+
+        if(parent->parent && !isRouteBelowTopic(parent, route) && parent->routeList2)
+            rtList_RemoveItemByCompare(parent->routeList2, route, rtList_ComparePointer, NULL);
+        removeTopicIfUnused(treeTopic);
+        treeTopic = parent;
     }
+    return RT_OK;
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
@@ -687,7 +708,7 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL);
         
         if(!treeTopic)
             return;
diff --git a/src/rtmessage/rtRoutingTree.h b/src/rtmessage/rtRoutingTree.h
index 1ba21a1..6c4e877 100644
--- a/src/rtmessage/rtRoutingTree.h
+++ b/src/rtmessage/rtRoutingTree.h
@@ -39,7 +39,7 @@ rtRoutingTree:
             rtRoutingTree_GetTopicRoutes        <= rtree_lookup_value
             rtRoutingTree_ResolvePartialPath    <= rtree_get_uniquely_resolvable_endpoints_for_expression
             rtRoutingTree_RemoveRoute           <= rtree_remove_nodes_matching_value
-            rtRoutingTree_RemoveTopic           <= rtree_remove_value
+            rtRoutingTree_RemoveTopicRoute      <= rtree_remove_value (of one route only)
             rtRoutingTree_LogStats              <= rtree_get_stats
             rtRoutingTree_LogTopicTree          <= rtree_traverse_and_log
         API new functions:
@@ -157,7 +157,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topic, const v
 void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* routes);
 void rtRoutingTree_GetRouteTopics(rtRoutingTree rt, const void* route, rtList* topics);
 void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route);
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic);
+rtError rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* route);
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics);
 void rtRoutingTree_LogStats(rtRoutingTree rt);
 void rtRoutingTree_LogTopicTree(rtRoutingTree rt);
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 6c3b96b..b371118 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -803,9 +803,15 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         }
         if(0 == route_removed)
         {
-          //Not a route. Is it an alias?
+          //Not a route. Is it an alias of one of the sender's routes?
           rtLog_Debug("Removing alias %s", expression);
-          rtRoutingTree_RemoveTopic(gRoutingTree, expression);
+          for (i = 0; i < rtVector_Size(gRoutes); i++)
+          {
+            rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
+            if((route->subscription) && (route->subscription->client == sender) &&
+               (RT_OK == rtRoutingTree_RemoveTopicRoute(gRoutingTree, expression, (void *)route)))
+              break;
+          }
         }
       }
     }
-- 
2.43.0


From 76f2c23586c183ab4d8033c8f0831749643fd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 02/49] fix: daemon: a name whose owner is gone can be
 registered again

The route list of a topic which still has children stays allocated when its
last route is removed; its mere existence was taken for a registration.
---
 src/rtmessage/rtRoutingTree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84836b8..ee61783 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -509,7 +509,11 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
         }
     }
 
-    if (err_on_dup && (0 == isCreated) && (topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
+    size_t numRoutes = 0;
+    if (topic->routeList)
+        rtList_GetSize(topic->routeList, &numRoutes);
+
+    if (err_on_dup && (0 == isCreated) && (numRoutes > 0) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
     {
         /* Controlled Error log will be printed in rtrouted */
         rtLog_Debug("Rejecting a duplicate registraion");
-- 
2.43.0


From f7344b5d2c7a26ca8ddbc36d7507139d60eeb9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 03/49] fix: daemon: a topic stops being a table when its row
 placeholder is gone

Otherwise messages to the topic, or to a row placeholder which does not exist,
were delivered to the owner of an unrelated sibling or child topic.
---
 src/rtmessage/rtRoutingTree.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index ee61783..ef1be0a 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -199,8 +199,11 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
             if (error)
             {
                 *error = 1;
+                return treeTopic;
             }
-            return treeTopic;
+            /* a lookup of '{i}' must not end up at a sibling which is not a table row placeholder*/
+            if (treeTopic->name[0] == '{')
+                return treeTopic;
         }
         rtListItem_GetNext(item, &item);
     }
@@ -294,7 +297,11 @@ static void removeTopicIfUnused(rtTreeTopic* treeTopic)
     if(treeTopic->routeList)
         rtList_GetSize(treeTopic->routeList, &numRoutes);
     if(numChildren == 0 && numRoutes == 0)
+    {
+        if(treeTopic->name[0] == '{')
+            treeTopic->parent->isTable = 0;
         rtList_RemoveItemByCompare(treeTopic->parent->childList, treeTopic, rtList_ComparePointer, freeTreeTopic);
+    }
 }
 
 /* 
@@ -339,6 +346,8 @@ static void removeRouteFromTopicTree(rtRoutingTree rt, rtTreeTopic* treeTopic, r
         rtListItem_GetNext(childItem, &next);
         if(numChildren == 0 && numRoutes == 0)
         {
+            if(child->name[0] == '{')
+                treeTopic->isTable = 0;
             rtList_RemoveItem(treeTopic->childList, childItem, freeTreeTopic);
         }/*
         else if(numRoutes == 0 && numRoutes2 > 0)
-- 
2.43.0


From ccb03662c47f0ddd257d9160e49d885a1306cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 04/49] fix: daemon: a route registered twice for the advisory
 topic is removed with its client

The second entry stayed behind as a dangling pointer when the client left.
---
 src/rtmessage/rtRoutingTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index ef1be0a..f80db9f 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -532,7 +532,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     if(!topic->routeList)
         rtList_Create(&topic->routeList);
 
-    rtList_PushBack(topic->routeList, route, NULL);
+    addPointerToListOnce(topic->routeList, route);
 
     addPointerToListOnce(route->topicList, topic);
 
-- 
2.43.0


From 87abde9dafcccb770d123317c1431e0a7bbb1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 05/49] fix: daemon: reject impossible header and payload
 lengths

A header length below the preamble's, or a payload length which overflows an
int, made the daemon read past the client's buffer.
---
 src/rtmessage/rtrouted.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index b371118..279e768 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -40,6 +40,7 @@
 #include <arpa/inet.h>
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <sys/select.h>
 #include <sys/wait.h>
 #include <netinet/in.h>
@@ -1572,6 +1573,12 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((header_length <= RTMESSAGEHEADER_PREAMBLE_LENGTH) || (header_length > clnt->read_buffer_capacity))
+        {
+          rtLog_Warn("Bad header length in message from %s - %s", clnt->ident, rtRouted_GetClientName(clnt));
+          rtConnectedClient_Reset(clnt);
+          break;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -1582,7 +1589,8 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
     {
       if (clnt->bytes_read == clnt->bytes_to_read)
       {
-        if(RT_OK != rtMessageHeader_Decode(&clnt->header, clnt->read_buffer))
+        if((RT_OK != rtMessageHeader_Decode(&clnt->header, clnt->read_buffer)) ||
+           (clnt->header.payload_length > INT_MAX / 2))
         {
           rtLog_Warn("Bad header in message from %s - %s", clnt->ident, rtRouted_GetClientName(clnt));
           rtConnectedClient_Reset(clnt);
-- 
2.43.0


From e3bced9c8deb013ec89c671b17745e9030b805cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 06/49] fix: daemon: forward messages which have no payload

Reading a payload of zero bytes was taken for the end of the stream, so that
the message was lost and its sender disconnected.
---
 src/rtmessage/rtrouted.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 279e768..c6b5ef0 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1621,8 +1621,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           }
         }
       }
+      if((clnt->state != rtConnectionState_ReadPayload) || (clnt->bytes_read != clnt->bytes_to_read))
+        break;
+      /* the message has no payload: it is complete */
     }
-    break;
+    /* fall through */
 
     case rtConnectionState_ReadPayload:
     {
-- 
2.43.0


From 1236a217b4db29d88d973aef0ec0edcc13a5ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 07/49] fix: daemon: survive malformed subscribe and
 diagnostics messages and daemon topics as reply topic

Each dereferenced a NULL or uninitialised pointer.
---
 src/rtmessage/rtrouted.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index c6b5ef0..7e59c5a 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -501,7 +501,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
       rtListItem_GetData(item, (void**)&treeRoute);
       rtListItem_GetNext(item, &item);
       route = treeRoute->route;
-      if(route)
+      if(route && route->subscription)
       {
         rtLog_Debug("SendMessage topic=%s expression=%s", request_hdr->topic, route->expression);
         found_dest = 1;
@@ -745,7 +745,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
   uint32_t route_id = 0;
   uint32_t i = 0;
   int32_t add_subscrption = 0;
-  rtMessage m;
+  rtMessage m = NULL;
   rtMessage response = NULL;
   rtError rc = RT_OK;
 
@@ -822,7 +822,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
       rc = RT_ERROR_INVALID_ARG;
     }
   }
-  rtMessage_Release(m);
+  if(m)
+    rtMessage_Release(m);
 
   /* Send Response */
   if(hdr->flags & rtMessageFlags_Request)
@@ -1162,11 +1163,22 @@ static void
 rtRouted_OnMessageDiagnostics(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t const* buff, int n)
 {
   rtMessage msg;
-  const char * cmd;
+  const char * cmd = NULL;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+  {
+    rtLog_Warn("Bad diagnostics message");
+    rtLog_Warn("Sender %s", sender->ident);
+    return;
+  }
 
   rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd);
+  if(NULL == cmd)
+  {
+    rtLog_Warn("Bad diagnostics message from %s", sender->ident);
+    rtMessage_Release(msg);
+    return;
+  }
 
   if(0 == strncmp(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS, cmd, sizeof(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS)))
     rtLog_SetLevel(RT_LOG_DEBUG);
-- 
2.43.0


From 1cfc3474a583728f8d5d201bc85cd5f27700178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 08/49] fix: daemon: looking up a name with too many or too
 long tokens overflowed the token buffers

---
 src/rtmessage/rtRoutingTree.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index f80db9f..03e41a5 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -47,8 +47,8 @@ typedef struct rtRoutingTreeStats
 #define MAX_TOKENS 32
 #define MAX_TOKEN_BUFFER_SIZE 512
 
-static char workBuffer[MAX_TOKEN_BUFFER_SIZE];
-static Token workTokens[MAX_TOKENS];
+static char workBuffer[MAX_TOKEN_BUFFER_SIZE + 1];
+static Token workTokens[MAX_TOKENS + 1]; /*MAX_TOKENS separators*/
 static int workTokenCount = 0;
 
 static int rtList_ComparePointer(const void *left, const void *right)
@@ -146,8 +146,13 @@ static void tokenizeExpression(const char* expression)
     const char* from = expression;
     char* to = workBuffer;
     workTokenCount = 0;
+    /*what is looked up has not been validated: an expression that could not have been registered matches nothing*/
+    if(strlen(expression) > MAX_TOKEN_BUFFER_SIZE)
+        return;
     while(*from)
     {
+        if(i > MAX_TOKENS)
+            return;
         workTokens[i].name = to;
         
         while(*from && *from != '.')
-- 
2.43.0


From 94060c3ef41f93ed2a0876e896e8d38515f5e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 09/49] fix: a failed multi-set within one component reverts
 whatever the failure is

A read-only or unknown property later in the list left the earlier ones
set (and released the backup early), a property listed twice ended at its
intermediate value, and a property whose old value could not be read was
reverted to an empty one.
---
 src/rbus/rbus.c | 62 +++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..8cd55ce 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1563,6 +1563,12 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
+                                if(rc != RBUS_ERROR_SUCCESS)
+                                {
+                                    /* no old value to go back to */
+                                    rbusProperty_Release(currentData);
+                                    currentData = NULL;
+                                }
                            }
                            else
                                 RBUSLOG_INFO("%s is a write only parameter",paramName);
@@ -1577,25 +1583,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         {
                             RBUSLOG_WARN("Set Failed for %s; Component Owner returned Error", paramName);
                             pFailedElement = paramName;
-                            if(rollBack == 1)
-                            {
-                                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
-                                /*===========< Rollback old values >============*/
-                                rbusProperty_t prevProp = cachedData;
-                                while(prevProp)
-                                {
-                                    char const* prevParamName = rbusProperty_GetName(prevProp);
-                                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
-                                    prevProp = rbusProperty_GetNext(prevProp);
-                                    if(err != RBUS_ERROR_SUCCESS)
-                                    {
-                                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
-                                    }
-                                }
-                            }
+                            if(currentData)
+                                rbusProperty_Release(currentData);
                             break;
                         }
                         else
@@ -1604,7 +1593,13 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
-                                if (cachedData == NULL)
+                                rbusProperty_t prevProp = cachedData;
+                                /* a property that is set more than once goes back to its first old value */
+                                while(prevProp && strcmp(rbusProperty_GetName(prevProp), paramName))
+                                    prevProp = rbusProperty_GetNext(prevProp);
+                                if (prevProp)
+                                    rbusProperty_Release(currentData);
+                                else if (cachedData == NULL)
                                     cachedData = currentData;
                                 else
                                 {
@@ -1620,8 +1615,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         RBUSLOG_WARN("Set Failed for %s; No Handler found", paramName);
                         rc = RBUS_ERROR_NOT_WRITABLE;
                         pFailedElement = paramName;
-                        if(cachedData)
-                           rbusProperty_Release(cachedData);
                         break;
                     }
                 }
@@ -1633,6 +1626,28 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     break;
                 }
             }
+            if(rc != RBUS_ERROR_SUCCESS && rollBack == 1)
+            {
+                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
+                /*===========< Rollback old values >============*/
+                rbusProperty_t prevProp = cachedData;
+                while(prevProp)
+                {
+                    char const* prevParamName = rbusProperty_GetName(prevProp);
+                    el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, prevParamName, true);
+                    if(el != NULL)
+                    {
+                        ELM_PRIVATE_LOCK(el);
+                        err = el->cbTable.setHandler(handle, prevProp, &opts);
+                        ELM_PRIVATE_UNLOCK(el);
+                        if(err != RBUS_ERROR_SUCCESS)
+                        {
+                            RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
+                        }
+                    }
+                    prevProp = rbusProperty_GetNext(prevProp);
+                }
+            }
         }
         else
         {
@@ -1654,10 +1669,11 @@ exit:
     if (rc == RBUS_ERROR_SUCCESS)
     {
         rbusPropertyList_appendToMessage(cachedData, *response);
-        rbusProperty_Release(cachedData);
     }
     else if(pFailedElement)
         rbusMessage_SetString(*response, pFailedElement);
+    if(cachedData)
+        rbusProperty_Release(cachedData);
 
     if(pProperties)
     {
-- 
2.43.0


From 4e92f15d209a1a49245f9c58e6703d6f2e4e92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 10/49] fix: a failed multi-set over several components reverts
 all of them

Only the values of the component that answered last were kept for the
rollback, a component that could not be reached was skipped (its error
lost, nothing reverted), and the name of the refused property was no
longer reported once another component had accepted its part.
---
 src/rbus/rbus.c | 83 ++++++++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 45 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8cd55ce..d2bda7e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4312,65 +4312,58 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                         legacyRetCode = (rbusLegacyReturn_t) ret;
                         if((errorcode == RBUS_ERROR_SUCCESS) || (legacyRetCode == RBUS_LEGACY_ERR_SUCCESS))
                         {
+                            rbusProperty_t batchProperties = NULL;
                             errorcode = RBUS_ERROR_SUCCESS;
                             RBUSLOG_DEBUG("Successfully Set the Value");
-                            rbusPropertyList_initFromMessage(&cachedProperties, setResponse);
-                            pFailedElement = NULL;
+                            rbusPropertyList_initFromMessage(&batchProperties, setResponse);
+                            if(cachedProperties && batchProperties)
+                            {
+                                rbusProperty_Append(cachedProperties, batchProperties);
+                                rbusProperty_Release(batchProperties);
+                            }
+                            else if(batchProperties)
+                                cachedProperties = batchProperties;
                         }
                         else
                         {
-                            if(pFailedElement)
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                *pFailedElement = strdup((char*)pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
-                            }
-                            else
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
-                            }
-                            if(rollBack)
-                            {
-                                char *pTempFailedElement = NULL;
-                                rbusSetOptions_t revertOpts;
-                                if ((opts) && (opts->sessionId != 0))
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId= opts->sessionId;
-                                }
-                                else
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId = 0;
-                                }
-                                cachedNumProps = 0;
-                                cachedNumProps = rbusProperty_Count(cachedProperties);
-                                rbusError_t result;
-                                result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                                if(result == RBUS_ERROR_SUCCESS)
-                                    RBUSLOG_DEBUG("Successfully reverted back the values");
-                                else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
-                                {
-                                    RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
-                                    free(pTempFailedElement);
-                                }
-                            }
+                            rbusMessage_GetString(setResponse, &pErrorReason);
+                            RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
+                            if(pFailedElement && pErrorReason)
+                                *pFailedElement = strdup(pErrorReason);
                             if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
                             {
                                 errorcode = CCSPError_to_rbusError(legacyRetCode);
                             }
-                            if (componentName)
-                                free(componentName);
-                            rbusMessage_Release(setResponse);
-                            break;
                         }
 
                         /* Release the reponse message */
                         rbusMessage_Release(setResponse);
                     }
-                    if (componentName)
-                        free(componentName);
+                    free(componentName);
+
+                    if(errorcode != RBUS_ERROR_SUCCESS)
+                    {
+                        if(rollBack && cachedProperties)
+                        {
+                            char *pTempFailedElement = NULL;
+                            rbusSetOptions_t revertOpts;
+                            revertOpts.commit = true;
+                            revertOpts.sessionId = opts ? opts->sessionId : 0;
+                            cachedNumProps = rbusProperty_Count(cachedProperties);
+                            rbusError_t result;
+                            result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
+                            if(result == RBUS_ERROR_SUCCESS)
+                                RBUSLOG_DEBUG("Successfully reverted back the values");
+                            else if(pTempFailedElement)
+                            {
+                                RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
+                                free(pTempFailedElement);
+                            }
+                        }
+                        for(i = 0; i < numProps; ++i)
+                            free(componentNames[i]);
+                        break;
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 7203bd00fbd92b72351f7add07a561a9765f8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 11/49] fix: a get of several names fails when any of them
 cannot be read

The error of one component was overwritten by the success of the next,
giving a partial result, and the providers were told their own name as
the requesting component.
---
 src/rbus/rbus.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d2bda7e..1d45b91 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3849,7 +3849,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                 if(componentName)
                 {
                     rbusMessage_Init(&request);
-                    rbusMessage_SetString(request, componentName);
+                    rbusMessage_SetString(request, handleInfo->componentName);
                     rbusMessage_SetInt32(request, batchCount);
 
                     RBUSLOG_DEBUG("batchCount %d", batchCount);
@@ -3883,6 +3883,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                         if((errorcode = _getExt_response_parser(response, &batchNumVals, &batchResult)) != RBUS_ERROR_SUCCESS)
                         {
                             RBUSLOG_ERROR("error parsing response %d", errorcode);
+                            break;
                         }
                         else
                         {
@@ -3905,6 +3906,17 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                     break;
                 }
             }
+
+            if(errorcode != RBUS_ERROR_SUCCESS)
+            {
+                /*not all of them could be read*/
+                if(*retProperties)
+                    rbusProperty_Release(*retProperties);
+                *retProperties = NULL;
+                *numValues = 0;
+                for(i = 0; i < paramCount; ++i)
+                    free(componentNames[i]);
+            }
         }
         else
         {
-- 
2.43.0


From a83638ea435a73106fa8c3f67ad10aadf14925ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 12/49] fix: a failed wildcard get left the caller's result
 pointer undefined

---
 src/rbus/rbus.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 1d45b91..8fc2e5d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3686,6 +3686,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             {
                 RBUSLOG_DEBUG("Query for expression %s was successful. See result below:", pParamNames[0]);
                 rbusProperty_t last = NULL;
+                *retProperties = NULL;
                 *numValues = 0;
                 if (0 == numDestinations)
                 {
-- 
2.43.0


From 2b922e816a1671ab21af2b7b4747fa2addf5bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 13/49] fix: wildcard get over several components returned
 freed properties

When the first component had nothing readable, the properties of the
second one were released although they were the caller's result.
---
 src/rbus/rbus.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8fc2e5d..ee86c83 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3749,10 +3749,12 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                                         {
                                             last = tmpProperties;
                                             *retProperties = last;
+                                            tmpProperties = NULL;
                                         }
                                     }
                                 }
-                                rbusProperty_Release(tmpProperties);
+                                if(tmpProperties)
+                                    rbusProperty_Release(tmpProperties);
                             }
                         }
                         if (errorcode != RBUS_ERROR_SUCCESS)
-- 
2.43.0


From 16eca0df7c4e474f7b1e3552469358960309bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 14/49] fix: registering a row on something that is not a table
 aborted the provider

---
 src/rbus/rbus.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index ee86c83..d079796 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4658,6 +4658,12 @@ rbusError_t rbusTable_registerRow(
         return RBUS_ERROR_INVALID_INPUT;
     }
 
+    if(tableInstElem->type != RBUS_ELEMENT_TYPE_TABLE)
+    {
+        RBUSLOG_WARN("not a table %s", tableName);
+        return RBUS_ERROR_INVALID_INPUT;
+    }
+
     RBUSLOG_DEBUG("register table row %s", rowName);
     registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
     return RBUS_ERROR_SUCCESS;
-- 
2.43.0


From d207ced2073136e19c97306dee61675af9f37053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 15/49] fix: unregistering a row by the name of something else
 deleted that element

---
 src/rbus/rbus.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d079796..d77c976 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4689,6 +4689,12 @@ rbusError_t rbusTable_unregisterRow(
         return RBUS_ERROR_INVALID_INPUT;
     }
 
+    if(!rowInstElem->parent || rowInstElem->parent->type != RBUS_ELEMENT_TYPE_TABLE || strcmp(rowInstElem->name, "{i}") == 0)
+    {
+        RBUSLOG_WARN("not a row %s", rowName);
+        return RBUS_ERROR_INVALID_INPUT;
+    }
+
     unregisterTableRow(handle, rowInstElem);
     return RBUS_ERROR_SUCCESS;
 }
-- 
2.43.0


From c484f5d01fbde66db42ba35cdb927b90e834310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 16/49] fix: one property that cannot be reverted kept the rest
 of a failed multi-set from it

---
 src/rbus/rbus.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d77c976..4444ffe 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4165,7 +4165,6 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusValueType_t type = RBUS_NONE;
     rbusProperty_t current;
-    uint32_t cachedNumProps = 0;
     rbusProperty_t cachedProperties = NULL;
     VERIFY_NULL(handle);
     if(timeout == 0)
@@ -4360,19 +4359,21 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     {
                         if(rollBack && cachedProperties)
                         {
-                            char *pTempFailedElement = NULL;
                             rbusSetOptions_t revertOpts;
+                            rbusProperty_t oldProp;
                             revertOpts.commit = true;
                             revertOpts.sessionId = opts ? opts->sessionId : 0;
-                            cachedNumProps = rbusProperty_Count(cachedProperties);
-                            rbusError_t result;
-                            result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                            if(result == RBUS_ERROR_SUCCESS)
-                                RBUSLOG_DEBUG("Successfully reverted back the values");
-                            else if(pTempFailedElement)
+                            /* one by one, so that one which cannot be reverted does not keep the others from it */
+                            for(oldProp = cachedProperties; oldProp; oldProp = rbusProperty_GetNext(oldProp))
                             {
-                                RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
+                                char *pTempFailedElement = NULL;
+                                rbusProperty_t revertProp = rbusProperty_Init(NULL, rbusProperty_GetName(oldProp), rbusProperty_GetValue(oldProp));
+                                if(_setMultiInternal(handle, 1, revertProp, &revertOpts, (int)timeout, &pTempFailedElement, false) == RBUS_ERROR_SUCCESS)
+                                    RBUSLOG_DEBUG("Successfully reverted %s", rbusProperty_GetName(oldProp));
+                                else
+                                    RBUSLOG_WARN("Failed to rollback %s\n", rbusProperty_GetName(oldProp));
                                 free(pTempFailedElement);
+                                rbusProperty_Release(revertProp);
                             }
                         }
                         for(i = 0; i < numProps; ++i)
-- 
2.43.0


From ac5af2ed94ae3e9f166bd1f91035072d04e2a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 17/49] fix: an asynchronous method response without output
 parameters was read as garbage by the caller

---
 src/rbus/rbus.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4444ffe..52f1d00 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6258,15 +6258,21 @@ rbusError_t rbusMethod_SendAsyncResponse(
 
     rbusMessage_Init(&response);
     rbusMessage_SetInt32(response, error);
-    if ((error != RBUS_ERROR_SUCCESS) && (outParams == NULL))
+    if (outParams == NULL)
     {
         rbusObject_Init(&outParams, NULL);
-        rbusValue_SetInt32(value1, error);
-        rbusValue_SetString(value2, rbusError_ToString(error));
-        rbusObject_SetValue(outParams, "error_code", value1);
-        rbusObject_SetValue(outParams, "error_string", value2);
+        if (error != RBUS_ERROR_SUCCESS)
+        {
+            rbusValue_SetInt32(value1, error);
+            rbusValue_SetString(value2, rbusError_ToString(error));
+            rbusObject_SetValue(outParams, "error_code", value1);
+            rbusObject_SetValue(outParams, "error_string", value2);
+        }
     }
+    else
+        rbusObject_Retain(outParams);
     rbusObject_appendToMessage(outParams, response);
+    rbusObject_Release(outParams);
     rbus_sendResponse(&asyncHandle->hdr, response);
     rbusValue_Release(value1);
     rbusValue_Release(value2);
-- 
2.43.0


From ab21dd6b13c060aa7b950fa92ba5858021be81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 18/49] fix: a property without any value was set to that when
 a failed multi-set was reverted

---
 src/rbus/rbus.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 52f1d00..0e6ac51 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1563,7 +1563,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
-                                if(rc != RBUS_ERROR_SUCCESS)
+                                if(rc != RBUS_ERROR_SUCCESS || !rbusProperty_GetValue(currentData)
+                                   || rbusValue_GetType(rbusProperty_GetValue(currentData)) == RBUS_NONE)
                                 {
                                     /* no old value to go back to */
                                     rbusProperty_Release(currentData);
-- 
2.43.0


From 173bd7d68d6394c616d6f2ec21ba31ddb78f6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 19/49] fix: rbusTable_unregisterRow goes on accepting the name
 of a table

---
 src/rbus/rbus.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 0e6ac51..1627fa2 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4691,7 +4691,8 @@ rbusError_t rbusTable_unregisterRow(
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    if(!rowInstElem->parent || rowInstElem->parent->type != RBUS_ELEMENT_TYPE_TABLE || strcmp(rowInstElem->name, "{i}") == 0)
+    if(rowInstElem->type != RBUS_ELEMENT_TYPE_TABLE &&
+       (!rowInstElem->parent || rowInstElem->parent->type != RBUS_ELEMENT_TYPE_TABLE || strcmp(rowInstElem->name, "{i}") == 0))
     {
         RBUSLOG_WARN("not a row %s", rowName);
         return RBUS_ERROR_INVALID_INPUT;
-- 
2.43.0


From fe27455988edff84a24982a24e60ce618b203169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 20/49] fix: deleting a row removed subscriptions to other
 elements

---
 src/rbus/rbus_subscriptions.c | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..f06ba40 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -319,8 +319,6 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
             {
                 rtListItem item, tempitem;
                 rbusSubscription_t* sub;
-                bool val=false;
-                rbusSubscription_t* subscription = NULL;
 
                 rtList_GetFront(subscriptions->subList, &item);
 
@@ -329,6 +327,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                 {
                     rtListItem item2;
                     elementNode* inst;
+                    bool val = false;
 
                     rtListItem_GetNext(item, &tempitem);
                     rtListItem_GetData(item, (void**)&sub);
@@ -350,19 +349,11 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         rtListItem_GetNext(item2, &item2);
                     }
 
-                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list */
-                    if(val)
+                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list.
+                       A subscription with a wildcard name remains for the other rows*/
+                    if(val && strchr(sub->eventName, '*') == NULL)
                     {
-                        subscription = rbusSubscriptions_getSubscription(subscriptions, sub->listener, sub->eventName,
-                                sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
-                        if(!subscription)
-                        {
-                            RBUSLOG_INFO("unsubscribing from event which isn't currectly subscribed to event=%s listener=%s", sub->eventName, sub->listener);
-                        }
-                        else
-                        {
-                            rbusSubscriptions_removeSubscription(subscriptions, subscription);
-                        }
+                        rbusSubscriptions_removeSubscription(subscriptions, sub);
                     }
                     item = tempitem;
                 }
-- 
2.43.0


From e1679e6599ec225d31f364af1ee5062f6ef3e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 21/49] fix: the subscribe handler of an element was told of
 subscriptions that were then rejected

---
 src/rbus/rbus.c               | 40 +++++++++++++++++++++--------------
 src/rbus/rbus_subscriptions.c |  8 +++++--
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 1627fa2..4304802 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1100,6 +1100,30 @@ int subscribeHandlerImpl(
 
     RBUSLOG_INFO("Consumer=%s %s to event=%s", listener, added ? "SUBSCRIBED" : "UNSUBSCRIBED", eventName);
 
+    /* the provider's subHandler is told only of requests which can be carried out */
+    if(rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
+    {
+        RBUSLOG_INFO("rawDataSubscription is only allowed for events");
+        return RBUS_ERROR_INVALID_INPUT;
+    }
+    if(added && interval && eventName[strlen(eventName)-1] == '.')
+    {
+        RBUSLOG_ERROR("rbus interval subscription not supported for this event %s\n", eventName);
+        return RBUS_ERROR_INVALID_OPERATION;
+    }
+    HANDLE_SUBS_MUTEX_LOCK(handle);
+    subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
+    if(added && subscription && subscriptionId)
+        *subscriptionId = subscription->subscriptionId;
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
+    if(added && subscription)
+        return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+    if(!added && !subscription)
+    {
+        RBUSLOG_ERROR("unsubscribing from event which isn't currectly subscribed to event=%s listener=%s", eventName, listener);
+        return RBUS_ERROR_INVALID_INPUT;
+    }
+
     /* call the provider subHandler first to see if it overrides autoPublish */
     if(el->cbTable.eventSubHandler)
     {
@@ -1132,15 +1156,6 @@ int subscribeHandlerImpl(
         RBUSLOG_INFO("rbus autoPublish is enabled for interval based subscription");
     }
 
-    if(added)
-    {
-        if (interval && eventName[strlen(eventName)-1] == '.')
-        {
-            RBUSLOG_ERROR("rbus interval subscription not supported for this event %s\n", eventName);
-            return RBUS_ERROR_INVALID_OPERATION;
-        }
-    }
-
     HANDLE_SUBS_MUTEX_LOCK(handle);
     subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
     if (added)
@@ -1174,14 +1189,7 @@ int subscribeHandlerImpl(
 
     /* if autoPublish and its a property being subscribed to
        then update rbusValueChange to handle the property */
-    if(rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
     {
-        RBUSLOG_INFO("rawDataSubscription is only allowed for events");
-        HANDLE_SUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_INVALID_INPUT;
-    }
-    else
-    { 
         if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
         {
             rtListItem item;
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index f06ba40..5820e08 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -758,13 +758,15 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
             rbusError_t err;
             RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
             rtListItem_GetNext(item, &next);
+            rtListItem_SetData(item, NULL);
             rtList_RemoveItem(subscriptions->subList, item, NULL);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
             err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
             /*TODO figure out what to do if we get an error resubscribing
             It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
             */
-            (void)err;
             subscriptionFree(sub);
+            if(err != RBUS_ERROR_SUCCESS)
+                rbusSubscriptions_saveCache(subscriptions);
             item = next;
         }
         else
@@ -805,10 +807,12 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
                 if(el)
                 {
                     RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
+                    rtListItem_SetData(item, NULL);
                     rtList_RemoveItem(subscriptions->subList, item, NULL);
                     err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
-                    (void)err;
                     subscriptionFree(sub);
+                    if(err != RBUS_ERROR_SUCCESS)
+                        rbusSubscriptions_saveCache(subscriptions);
                 }
             }
 
-- 
2.43.0


From 8676fc494f46bf3ddb1c6c276f0107c24f474bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 22/49] fix: a subscription asking for the initial value got a
 garbage answer when the get handler failed

---
 src/rbus/rbus.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4304802..7270912 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2733,7 +2733,6 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                     else
                     {
                         err = RBUS_ERROR_INVALID_OPERATION;
-                        rbusMessage_SetInt32(*response, 0); /* No initial value returned, as get handler is not present */
                         RBUSLOG_WARN("Get handler does not exist %s", event_name);
                     }
                 }
@@ -2747,6 +2746,10 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                     rbusEventData_appendToMessage(&event, filter, interval, duration, componentId, *response);
                     rbusProperty_Release(tmpProperties);
                 }
+                else
+                {
+                    rbusMessage_SetInt32(*response, 0); /* No initial value returned, as get handler is not present or failed */
+                }
                 rbusObject_Release(data);
             }
             if(payload)
-- 
2.43.0


From d80a3f423e865320208caa615ab1c2a02cd5ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 23/49] fix: a renewed subscription lost its id and a refused
 one was kept by the consumer

---
 src/rbus/rbus.c | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7270912..61399ed 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5197,6 +5197,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         subInternal->sub = sub;
         subInternal->dirty = false;
         subInternal->rawData = rawData;
+        subInternal->subscriptionId = 0;
         rtVector_PushBack(handleInfo->eventSubs, subInternal);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(publishOnSubscribe)
@@ -5208,7 +5209,13 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             }
         }
         rbusMessage_GetInt32(response, &subscriptionId);
-        subInternal->subscriptionId = subscriptionId;
+        /*the subscription may have been removed again in the meantime, e.g. by the event handler*/
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+        if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
+        {
+            subInternal->subscriptionId = subscriptionId;
+        }
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(response)
             rbusMessage_Release(response);
         RBUSLOG_INFO("%s subscribe retries succeeded", eventName);
@@ -5225,10 +5232,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             {
                 subInternal->dirty = true;
             }
-            else
-            {
-                rbusEventSubscription_free(sub);
-            }
+            rbusEventSubscription_free(sub);
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
             return RBUS_ERROR_TIMEOUT;
         }
@@ -5243,16 +5247,29 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                     rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
                 }
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
+                int32_t subscriptionId = 0;
+                rbusMessage_GetInt32(response, &subscriptionId);
                 subInternal->sub = sub;
                 subInternal->dirty = false;
+                subInternal->rawData = rawData;
+                subInternal->subscriptionId = subscriptionId;
                 rtVector_PushBack(handleInfo->eventSubs, subInternal);
                 RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", subInternal->sub->eventName);
                 HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                if(response)
+                    rbusMessage_Release(response);
                 return RBUS_ERROR_SUCCESS;
             }
             else
             {
                 RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", eventName);/*RDKB-33658-AC9*/
+                /*if a withdrawn subscription was to be renewed then it is still withdrawn*/
+                HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+                if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
+                {
+                    subInternal->dirty = true;
+                }
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
                 rbusEventSubscription_free(sub);
                 if(response)
                     rbusMessage_Release(response);
@@ -5262,6 +5279,12 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         else
         {
             RBUSLOG_WARN("%s subscribe retries failed due to core error %d", eventName, coreerr);
+            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
+            {
+                subInternal->dirty = true;
+            }
+            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
             rbusEventSubscription_free(sub);
             return RBUS_ERROR_BUS_ERROR;
         }
@@ -5616,6 +5639,8 @@ rbusError_t rbusEvent_SubscribeExRawData(
         if(!subscription[i].handler)
         {
             errorcode = RBUS_ERROR_INVALID_INPUT;
+            if(i > 0)
+                rbusEvent_UnsubscribeExRawData(handle, subscription, i);
             break;
         }
         errorcode = rbusEvent_SubscribeWithRetries(
@@ -5628,7 +5653,7 @@ rbusError_t rbusEvent_SubscribeExRawData(
                 So, as a transaction, we just undo everything, which are all those from 0 to i-1.
             */
             if(i > 0)
-                rbusEvent_UnsubscribeEx(handle, subscription, i);
+                rbusEvent_UnsubscribeExRawData(handle, subscription, i);
             break;
         }
         else
@@ -5768,8 +5793,8 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
             RBUSLOG_INFO("%s no existing subscription found", subscription[i].eventName);
             errorcode = RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
         }
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     }
-    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return errorcode;
 }
 
-- 
2.43.0


From 73f8382f0c8b3046614ce2a1efe9a2aa9861dc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 24/49] fix: subscriptions with a NOT filter could not be
 restored by a restarted provider

---
 src/rbus/rbus_filter.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..92807a5 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -230,7 +230,8 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        rbusFilter_Encode(filter->e.logic.right, buff);
+        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)
+            rbusFilter_Encode(filter->e.logic.right, buff);
     }
 }
 
@@ -243,7 +244,7 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     rbusFilter_RelationOperator_t relOp;
     rbusFilter_LogicOperator_t logOp;
     rbusValue_t val;
-    rbusFilter_t left, right;
+    rbusFilter_t left, right = NULL;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
@@ -291,12 +292,13 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
             return -1;
         if(rbusFilter_Decode(&left, buff) < 0)
             return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
+        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
             return -1;
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
-        rbusFilter_Release(right);
+        if(right)
+            rbusFilter_Release(right);
     }
     *filterOut = filter;
     return 0;
-- 
2.43.0


From adecde63f1d3cb11ba9b00cdc06256f9044c5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 25/49] fix: comparing dates, byte arrays of different length
 and big 64 bit integers gave wrong results

---
 src/rbus/rbus_value.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..5c6a003 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -913,6 +913,20 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     /*compare integral values being type insensitive*/
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
+        /*a double can't tell big 64 bit integers apart*/
+        if(v1->type == RBUS_INT64 && v2->type == RBUS_INT64)
+        {
+            int64_t i1 = rbusValue_GetInt64(v1);
+            int64_t i2 = rbusValue_GetInt64(v2);
+            return i1 == i2 ? 0 : (i1 < i2 ? -1 : 1);
+        }
+        if(v1->type == RBUS_UINT64 && v2->type == RBUS_UINT64)
+        {
+            uint64_t u1 = rbusValue_GetUInt64(v1);
+            uint64_t u2 = rbusValue_GetUInt64(v2);
+            return u1 == u2 ? 0 : (u1 < u2 ? -1 : 1);
+        }
+
         double d1 = rbusValue_CoerceNumericToDouble(v1);
         double d2 = rbusValue_CoerceNumericToDouble(v2);
 
@@ -940,7 +954,8 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
+        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data,
+            v1->d.bytes->posWrite < v2->d.bytes->posWrite ? v1->d.bytes->posWrite : v2->d.bytes->posWrite);
         if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
             c = -1;
         else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
@@ -949,7 +964,7 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
         /*apply timezone and diff the times*/
-- 
2.43.0


From a7f53aa6877f3cc8b37f77ad41e6f01bbb2dfaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 26/49] fix: a restarted provider did not restore subscriptions
 to its tables

---
 src/rbus/rbus_subscriptions.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 5820e08..0999c49 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -726,7 +726,8 @@ static int _compareEventNameToElemName(char const* event, char const* elem)
         }
         else
         {
-            if(*p2)
+            /*a table is subscribed to by its name, e.g. "Foo.Table." is "Foo.Table.{i}."*/
+            if(*p2 && !(p1 != event && p1[-1] == '.' && strcmp(p2, "{i}.") == 0))
                 return 1;
             else
                 return 0;
-- 
2.43.0


From 405357c911efd88a0f9c9509275b0c78ecb06e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 27/49] fix: adding a row renewed live subscriptions, also
 those of other rows

---
 src/rbus/rbus_subscriptions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 0999c49..abd4ec2 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -802,7 +802,9 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
         {
             rtListItem next = NULL;
             rtListItem_GetNext(item, &next);
-            if(strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
+            if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
+               strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0 &&
+               sub->eventName[strlen(rowNode->fullName)] == '.')
             {
                 el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
                 if(el)
-- 
2.43.0


From 765f680a7b3460246cae185d566707fe94b9ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 28/49] fix: a subscription withdrawn while its row was absent
 came back with the row

---
 src/rbus/rbus.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 61399ed..d3f3022 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2658,6 +2658,19 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
             {
                 ret = subscribeHandlerImpl(handle, added, el, event_name, sender, componentId, interval, duration, filter, rawData, &subscriptionId);
             }
+            else if(!el && !added)
+            {
+                /*a subscription from before a restart whose row isn't back must not be renewed when the row comes back*/
+                rbusSubscription_t* subscription;
+                HANDLE_SUBS_MUTEX_LOCK(handle);
+                subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, sender, event_name, componentId, filter, interval, duration, rawData);
+                if(subscription)
+                {
+                    rbusSubscriptions_removeSubscription(handleInfo->subscriptions, subscription);
+                    ret = RBUS_ERROR_SUCCESS;
+                }
+                HANDLE_SUBS_MUTEX_UNLOCK(handle);
+            }
             rbusMessage_SetInt32(*response, ret);
 
             if(publishOnSubscribe && ret == RBUS_ERROR_SUCCESS)
-- 
2.43.0


From d9873268bcd203b123700a8d2268c3bfd1be1f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 29/49] fix: subscriptions with filter, interval or raw data
 remained when their consumer had gone

---
 src/rbus/rbus_subscriptions.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index abd4ec2..bc156fb 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -847,13 +847,15 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
         {
             /* RDKB-38389 : Checking for elementnode existence for which the eventname is subscribed */
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-            if(el)
+            if(el && sub->element)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, 0, 0, 0, 0, 0);
+                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId,
+                    sub->interval, sub->duration, sub->filter, sub->rawData, NULL);
             }
             else
             {
-                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: unexpected! element not found");
+                /*not renewed yet since this provider was restarted*/
+                rbusSubscriptions_removeSubscription(subscriptions, sub);
             }
         }
     }
-- 
2.43.0


From dfd8afc607647ef2479a48f4951fedeb956bc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 30/49] fix: value change events told subscribers without a
 filter about the filters of others

---
 src/rbus/rbus.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d3f3022..8cce2e7 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5992,6 +5992,23 @@ rbusError_t  rbusEvent_PublishRawData(
     return rc;
 }
 
+/*a copy of the event data for a subscriber with a filter, telling whether the filter has started or stopped matching*/
+static rbusObject_t rbusEvent_CopyDataWithFilterResult(rbusObject_t data, bool result)
+{
+    rbusObject_t copy = NULL;
+    rbusProperty_t prop;
+
+    if(rbusObject_GetType(data) == RBUS_OBJECT_MULTI_INSTANCE)
+        rbusObject_InitMultiInstance(&copy, rbusObject_GetName(data));
+    else
+        rbusObject_Init(&copy, rbusObject_GetName(data));
+    for(prop = rbusObject_GetProperties(data); prop; prop = rbusProperty_GetNext(prop))
+        rbusObject_SetValue(copy, rbusProperty_GetName(prop), rbusProperty_GetValue(prop));
+    rbusObject_SetPropertyBoolean(copy, "filter", result);
+    rbusObject_SetChildren(copy, rbusObject_GetChildren(data));
+    return copy;
+}
+
 rbusError_t  rbusEvent_Publish(
   rbusHandle_t          handle,
   rbusEvent_t*          eventData)
@@ -6046,6 +6063,7 @@ rbusError_t  rbusEvent_Publish(
     while(listItem)
     {
         bool publish = true;
+        rbusObject_t filterData = NULL;
 
         rtListItem_GetData(listItem, (void**)&subscription);
         if(!subscription || !subscription->eventName || !subscription->listener)
@@ -6075,12 +6093,9 @@ rbusError_t  rbusEvent_Publish(
 
                 if(newResult != oldResult)
                 {
-                    /*set 'filter' to true/false implying that either the filter has started or stopped matching*/
-                    rbusValue_t filterResult = NULL;
-                    rbusValue_Init(&filterResult);
-                    rbusValue_SetBoolean(filterResult, newResult != 0);
-                    rbusObject_SetValue(eventData->data, "filter", filterResult);
-                    rbusValue_Release(filterResult);                    
+                    /*set 'filter' to true/false implying that either the filter has started or stopped matching
+                      (in a copy, because the other subscribers must not get it)*/
+                    filterData = rbusEvent_CopyDataWithFilterResult(eventData->data, newResult != 0);
                 }
                 else
                 {
@@ -6094,7 +6109,10 @@ rbusError_t  rbusEvent_Publish(
             rbusMessage msg;
             rbusMessage_Init(&msg);
 
-            rbusEventData_appendToMessage(eventData, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
+            rbusEvent_t event = *eventData;
+            if(filterData)
+                event.data = filterData;
+            rbusEventData_appendToMessage(&event, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
 
             RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s", subscription->eventName, subscription->listener);
 
@@ -6114,6 +6132,8 @@ rbusError_t  rbusEvent_Publish(
                 RBUSLOG_ERROR("rbusEvent_Publish failed: rbus_publishSubscriberEvent return error %d", err);
             }
         }
+        if(filterData)
+            rbusObject_Release(filterData);
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From 3ede5bd48038bf6e423dd9013821bb3fc02a4c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 31/49] fix: a subscription with a filter on an object or
 property aborted the provider

---
 src/rbus/rbus.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8cce2e7..9cf5dc5 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1067,6 +1067,19 @@ void valueChangeTableRowUpdate(rbusHandle_t handle, elementNode* rowNode, bool a
     }
 }
 
+/*filters compare plain values; objects and properties can neither be compared with a property's value nor be kept in the subscription cache*/
+static bool isFilterSupported(rbusFilter_t filter)
+{
+    if(!filter)
+        return true;
+    if(rbusFilter_GetType(filter) == RBUS_FILTER_EXPRESSION_RELATION)
+    {
+        rbusValue_t value = rbusFilter_GetRelationValue(filter);
+        return value && rbusValue_GetType(value) < RBUS_PROPERTY;
+    }
+    return isFilterSupported(rbusFilter_GetLogicLeft(filter)) && isFilterSupported(rbusFilter_GetLogicRight(filter));
+}
+
 int subscribeHandlerImpl(
     rbusHandle_t handle,
     bool added,
@@ -1101,6 +1114,11 @@ int subscribeHandlerImpl(
     RBUSLOG_INFO("Consumer=%s %s to event=%s", listener, added ? "SUBSCRIBED" : "UNSUBSCRIBED", eventName);
 
     /* the provider's subHandler is told only of requests which can be carried out */
+    if(added && !isFilterSupported(filter))
+    {
+        RBUSLOG_ERROR("filter of an unsupported type in subscription to event=%s listener=%s", eventName, listener);
+        return RBUS_ERROR_INVALID_INPUT;
+    }
     if(rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
     {
         RBUSLOG_INFO("rawDataSubscription is only allowed for events");
-- 
2.43.0


From 16ff92b6e423c53377a9b1c9de2ba99c3fc2ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 32/49] fix: raw data and messages for several listeners all
 went to the first one

The id of a listener on the bus was taken from the provider (or the user), and is not unique, while
a connection dispatches by that id. Removing a listener also dropped the context of the first one for
the same topic and, on a direct connection, none.
---
 src/rbus/rbus_message.c | 77 ++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index 4197fa7..f567ce5 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -53,8 +53,15 @@ typedef struct
     void*                 userData;
     rtConnection          connection;
     uint32_t              subscriptionId;
+    uint32_t              listenerId;
+    bool                  isPrivate;
 } rbusMessageHandlerContext_t;
 
+/* The ids which callers pass are chosen by each provider (or user), hence not unique within this
+ * process, but a connection dispatches by id. So listeners on the bus get an id of their own,
+ * above those which rtConnection and the providers hand out. */
+static uint32_t gNextListenerId = 0x10000000;
+
 rbusError_t rtError_to_rBusError(rtError e)
 {
     rbusError_t err;
@@ -110,11 +117,17 @@ static void cleanupContext(void * p)
     }
 }
 
-static int compareContextExpression(const void *left, const void *right)
+/* to be called with gMutex locked */
+static rbusMessageHandlerContext_t* findContext(rbusHandle_t handle, char const* expression, uint32_t subscriptionId, bool isPrivate)
 {
-    if((!left)||(!right))
-        return -1;
-    return strcmp(((const rbusMessageHandlerContext_t*)left)->expression, (const char*)right);
+    size_t i;
+    for (i = 0; i < rtVector_Size(handle->messageCallbacks); ++i)
+    {
+        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
+        if (ctx && ctx->isPrivate == isPrivate && ctx->subscriptionId == subscriptionId && !strcmp(ctx->expression, expression))
+            return ctx;
+    }
+    return NULL;
 }
 
 rbusError_t rbusMessage_AddPrivateListener(
@@ -142,11 +155,15 @@ rbusError_t rbusMessage_AddPrivateListener(
     ctx->userData = userData;
     ctx->connection = myConn;
     ctx->subscriptionId = subscriptionId;
+    ctx->listenerId = subscriptionId;
+    ctx->isPrivate = true;
     RBUS_MESSAGE_MUTEX_LOCK();
     rtVector_PushBack(handle->messageCallbacks, ctx);
 
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
-    rtError e = rtConnection_AddListenerWithId(myConn, rawDataTopic, subscriptionId, &rtMessage_CallbackHandler, ctx);
+    rtError e = rtConnection_AddListenerWithId(myConn, rawDataTopic, ctx->listenerId, &rtMessage_CallbackHandler, ctx);
+    if (e != RT_OK)
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -175,10 +192,14 @@ rbusError_t rbusMessage_AddListener(
     ctx->userData = userData;
     ctx->connection = con;
     ctx->subscriptionId = subscriptionId;
+    ctx->isPrivate = false;
     RBUS_MESSAGE_MUTEX_LOCK();
+    ctx->listenerId = gNextListenerId++;
     rtVector_PushBack(handle->messageCallbacks, ctx);
 
-    rtError e = rtConnection_AddListenerWithId(con, expression, subscriptionId, &rtMessage_CallbackHandler, ctx);
+    rtError e = rtConnection_AddListenerWithId(con, expression, ctx->listenerId, &rtMessage_CallbackHandler, ctx);
+    if (e != RT_OK)
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -205,9 +226,11 @@ rbusError_t rbusMessage_RemovePrivateListener(
 
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, rawDataTopic, compareContextExpression, cleanupContext);
-
     rtError e = rtConnection_RemoveListenerWithId(myConn, rawDataTopic, subscriptionId);
+
+    rbusMessageHandlerContext_t* ctx = findContext(handle, expression, subscriptionId, true);
+    if (ctx)
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -224,12 +247,16 @@ rbusError_t rbusMessage_RemoveListener(
     uint32_t subscriptionId)
 {
     VERIFY_NULL(handle);
-    rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
+    VERIFY_NULL(expression);
+    rtError e = RT_ERROR_INVALID_ARG;
 
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, expression, compareContextExpression, cleanupContext);
-
-    rtError e = rtConnection_RemoveListenerWithId(con, expression, subscriptionId);
+    rbusMessageHandlerContext_t* ctx = findContext(handle, expression, subscriptionId, false);
+    if (ctx)
+    {
+        e = rtConnection_RemoveListenerWithId(ctx->connection, expression, ctx->listenerId);
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
+    }
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -244,21 +271,29 @@ rbusError_t rbusMessage_RemoveAllListeners(
     rbusHandle_t handle)
 {
     VERIFY_NULL(handle);
-    rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
-    int i, n;
+    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
     RBUS_MESSAGE_MUTEX_LOCK();
-    for (i = 0, n = rtVector_Size(handle->messageCallbacks); i < n; ++i)
+    while (rtVector_Size(handle->messageCallbacks) > 0)
     {
-        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
-        VERIFY_NULL(ctx);
-        rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->subscriptionId);
+        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, 0);
+        rtError e;
+        if (!ctx->isPrivate)
+        {
+            e = rtConnection_RemoveListenerWithId(ctx->connection, ctx->expression, ctx->listenerId);
+        }
+        else
+        {
+            snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", ctx->subscriptionId, ctx->expression);
+            /* its connection may be gone */
+            e = (ctx->connection == rbuscore_FindClientPrivateConnection(ctx->expression)) ?
+                rtConnection_RemoveListenerWithId(ctx->connection, rawDataTopic, ctx->listenerId) : RT_OK;
+        }
         if (e != RT_OK)
         {
             RBUSLOG_WARN("rbusMessage_RemoveAllListener %s :%s", ctx->expression, rtStrError(e));
-        }    
-        free(ctx->expression);
-        free(ctx);
+        }
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     }
     RBUS_MESSAGE_MUTEX_UNLOCK();
     return RBUS_ERROR_SUCCESS;
-- 
2.43.0


From 179af05a3a6f6b86ea4cb533222b4d1dc9677560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 33/49] fix: withdrawing one of several listeners to the same
 topic withdrew the first of them

---
 src/rtmessage/rtrouted.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 7e59c5a..1969aba 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -790,19 +790,25 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
       }
       else
       {
-        int route_removed = 0;
+        rtRouteEntry* found = NULL;
         for (i = 0; i < rtVector_Size(gRoutes); i++)
         {
           rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
 
           if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender))
           {
-            rtRouted_ClearRoute(route);
-            route_removed = 1;
-            break;
+            //a client can have several routes with the same expression
+            if(!found || (route->subscription->id == route_id))
+              found = route;
+            if(route->subscription->id == route_id)
+              break;
           }
         }
-        if(0 == route_removed)
+        if(found)
+        {
+          rtRouted_ClearRoute(found);
+        }
+        else
         {
           //Not a route. Is it an alias of one of the sender's routes?
           rtLog_Debug("Removing alias %s", expression);
-- 
2.43.0


From 267bd3f7d86ceedca3459d4badad9f2703af7511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 34/49] fix: a NOT filter that has a second operand lost it
 when encoded

The stored form left the second operand out; it is kept when there is one,
and a marker stands for it when there is none.
---
 src/rbus/rbus_filter.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 92807a5..23b774d 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -26,6 +26,8 @@
 #include "rbus_buffer.h"
 
 #define VERIFY_NULL(T) if(NULL == T){ return; }
+/*encoded in place of the right operand of a NOT that has none*/
+#define RBUS_FILTER_EXPRESSION_ABSENT 0xFFFFFFFFu
 typedef struct _rbusFilter_LogicExpression* rbusFilter_LogicExpression_t;
 
 struct _rbusFilter_RelationExpression
@@ -230,8 +232,10 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)
+        if(filter->e.logic.right || filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)
             rbusFilter_Encode(filter->e.logic.right, buff);
+        else
+            rbusBuffer_WriteUInt32TLV(buff, RBUS_FILTER_EXPRESSION_ABSENT);
     }
 }
 
@@ -244,7 +248,7 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     rbusFilter_RelationOperator_t relOp;
     rbusFilter_LogicOperator_t logOp;
     rbusValue_t val;
-    rbusFilter_t left, right = NULL;
+    rbusFilter_t left, right;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
@@ -292,13 +296,16 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
             return -1;
         if(rbusFilter_Decode(&left, buff) < 0)
             return -1;
-        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
+        if(rbusFilter_Decode(&right, buff) < 0)
             return -1;
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
-        if(right)
-            rbusFilter_Release(right);
+        rbusFilter_Release(right);
+    }
+    else if(filterType == RBUS_FILTER_EXPRESSION_ABSENT)
+    {
+        filter = NULL;
     }
     *filterOut = filter;
     return 0;
-- 
2.43.0


From 40f832546ed227d37455fc8fd1aa549349f6c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 35/49] fix: ends of interval subscriptions could block,
 deadlock, be ignored, or be reported before they happened

The thread of an interval subscription published once more after the subscription had been withdrawn, and the
wake-up could be lost, in which case whoever withdrew it was blocked for a whole interval with the handle's lock
held.  At the end of the duration the thread took the locks in the opposite order to those who withdraw a
subscription and wait for the thread, and told the subscriber before the subscription had ended.  Row deletion and
rbus_close left the thread running with a subscription (and handle) that were freed.
---
 src/rbus/rbus.c                      |  34 ++---
 src/rbus/rbus_intervalsubscription.c | 221 ++++++++++++++++-----------
 src/rbus/rbus_intervalsubscription.h |   1 +
 src/rbus/rbus_subscriptions.c        |   4 +
 4 files changed, 152 insertions(+), 108 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 9cf5dc5..637b0c7 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1208,7 +1208,21 @@ int subscribeHandlerImpl(
     /* if autoPublish and its a property being subscribed to
        then update rbusValueChange to handle the property */
     {
-        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
+        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish && subscription->interval)
+        {
+            /* one thread reports all instances, of which a wildcard can have none yet */
+            RBUSLOG_INFO("subscription with interval  %s event=%s", added ? "Add" : "Remove", subscription->eventName);
+            if(added)
+            {
+                if((error = rbusInterval_AddSubscriptionRecord(handle, el, subscription)) != RBUS_ERROR_SUCCESS)
+                    RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
+            }
+            else
+            {
+                rbusInterval_RemoveSubscriptionRecord(handle, el, subscription);
+            }
+        }
+        else if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
         {
             rtListItem item;
             rtList_GetFront(subscription->instances, &item);
@@ -1218,22 +1232,7 @@ int subscribeHandlerImpl(
 
                 rtListItem_GetData(item, (void**)&node);
 
-                if (subscription->interval)
-                {
-                    RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
-                            added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added) {
-                        if((error = rbusInterval_AddSubscriptionRecord(handle, node, subscription)) != RBUS_ERROR_SUCCESS)
-                            RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
-                        break;
-                    }
-                    else
-                    {
-                        rbusInterval_RemoveSubscriptionRecord(handle, node, subscription);
-                        break;
-                    }
-                }
-                else if(!elementHasAutoPubSubscriptions(node, subscription))
+                if(!elementHasAutoPubSubscriptions(node, subscription))
                 {
                     /* Check if the node has other subscribers or not.  If it has other
                        subs then we don't need to either add or remove it from ValueChange */
@@ -3279,6 +3278,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
     }
 
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
+    rbusInterval_CloseHandle(handle);
 
     rbusAsyncSubscribe_CloseHandle(handle);
 
diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index aa83fe2..bf58ab8 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -42,18 +42,25 @@
 }
 #define VERIFY_NULL(T)      if(NULL == T){ return; }
 
+/* records of the running threads; a record is removed and freed by its own thread when that ends */
 rtVector gRecord = NULL;
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gCond = PTHREAD_COND_INITIALIZER; /* a thread has ended */
 typedef struct sRecord
 {
     int running;
     pthread_mutex_t  mutex;
-    pthread_t        thread;
     pthread_cond_t   cond;
     rbusHandle_t     handle;
-    elementNode const* node;
-    rbusProperty_t   property;
-    rbusSubscription_t* sub;
+    rbusSubscription_t* sub; /* valid only while running; what follows is a copy of what the thread needs of it */
+    char*            eventName;
+    char*            listener;
+    rbusFilter_t     filter;
+    int32_t          interval;
+    int32_t          duration;
+    int32_t          componentId;
+    uint32_t         subscriptionId;
+    bool             rawData;
 } sRecord;
 
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, int32_t interval, int32_t duration, int32_t componentId, rbusMessage msg);
@@ -82,8 +89,10 @@ static void sub_Free(void* p)
     {
         ERROR_CHECK(pthread_mutex_destroy(&rec->mutex));
         ERROR_CHECK(pthread_cond_destroy(&rec->cond));
-        rbusProperty_Release(rec->property);
-        rec->sub = NULL;
+        free(rec->eventName);
+        free(rec->listener);
+        if(rec->filter)
+            rbusFilter_Release(rec->filter);
         free(rec);
     }
 }
@@ -101,45 +110,74 @@ static sRecord* sub_find(rbusSubscription_t* sub)
     return NULL;
 }
 
+static void sub_publish(sRecord* rec, rbusEventType_t type, rbusObject_t data)
+{
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*)rec->handle;
+    rbusCoreError_t error;
+    rbusMessage msg;
+    rbusEvent_t event = {0};
+
+    event.name = rec->eventName;
+    event.data = data;
+    event.type = type;
+
+    rbusMessage_Init(&msg);
+    rbusEventData_appendToMessage(&event, rec->filter, rec->interval, rec->duration, rec->componentId, msg);
+
+    RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", rec->eventName, rec->listener, rec->interval);
+    error = rbus_publishSubscriberEvent(
+            handleInfo->componentName,
+            rec->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
+            rec->listener,
+            msg,
+            rec->subscriptionId,
+            rec->rawData);
+
+    rbusMessage_Release(msg);
+    if(error != RBUSCORE_SUCCESS)
+    {
+        RBUSLOG_ERROR("Event_Publish failed with result=%d", error);
+    }
+}
+
 /* Publishing event based on subscriber interval */
 static void* PublishingThreadFunc(void* rec)
 {
     RBUSLOG_DEBUG("\n PublishingThreadFunc: start\n");
     struct sRecord *sub_rec = (struct sRecord*)rec;
     int count = 0;
-    int duration_count = 0;
-    bool duration_complete = false;
-    rbusCoreError_t error;
-    rbusSubscription_t* sub = sub_rec->sub;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)sub_rec->handle;
     ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
     while(sub_rec->running)
     {
-        int err;
+        int err = 0;
         int actualCount = 0;
         int result = 0;
-        char *tmpptr = NULL;
         rtTime_t timeout;
         rtTimespec_t ts;
-        rtTime_Later(NULL, (sub->interval*1000), &timeout);
-        err = pthread_cond_timedwait(&sub_rec->cond,
-                &sub_rec->mutex,
-                rtTime_ToTimespec(&timeout, &ts));
+        rtTime_Later(NULL, (sub_rec->interval*1000), &timeout);
+        rtTime_ToTimespec(&timeout, &ts);
+        while(sub_rec->running && err == 0)
+            err = pthread_cond_timedwait(&sub_rec->cond, &sub_rec->mutex, &ts);
+
+        if(!sub_rec->running)
+            break;
 
-        if(err != 0 && err != ETIMEDOUT)
+        if(err != ETIMEDOUT)
         {
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
 
+        /* the get handler runs without the lock, so that it delays nobody who ends the subscription */
+        ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
         rbusProperty_t properties = NULL;
         rbusObject_t data;
         rbusObject_Init(&data, NULL);
         rbusProperty_Init(&properties, "numberOfEntries", NULL);
-        result = get_recursive_wildcard_handler(handleInfo, sub->eventName,
+        result = get_recursive_wildcard_handler(handleInfo, sub_rec->eventName,
                 "IntervalThread", properties, &actualCount);
         rbusProperty_SetInt32(properties, actualCount);
-        tmpptr = strchr(sub->eventName, '*');
-        if (tmpptr)
+        if (strchr(sub_rec->eventName, '*'))
         {
             rbusObject_SetProperty(data, properties);
         }
@@ -150,66 +188,45 @@ static void* PublishingThreadFunc(void* rec)
         rbusProperty_Release(properties);
         if(result != RBUS_ERROR_SUCCESS)
         {
-            RBUSLOG_ERROR("failed to get details of %s", sub->eventName);
+            RBUSLOG_ERROR("failed to get details of %s", sub_rec->eventName);
             rbusObject_Release(data);
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
             continue;
         }
 
-        rbusEvent_t event = {0};
-        event.name = sub->eventName;
-        event.data = data;
-        event.type = RBUS_EVENT_INTERVAL;
         /* Handling subscription with duration */
-        if (sub->duration != 0)
+        if (sub_rec->duration != 0 && count >= sub_rec->duration/sub_rec->interval)
         {
-            duration_count = sub->duration/sub->interval;
-            if (count >= duration_count)
-            {
-                /* Update event type after duration timeout*/
-                event.type = RBUS_EVENT_DURATION_COMPLETE;
-                duration_complete = true;
-            }
-        }
-
-        rbusMessage msg;
-        rbusMessage_Init(&msg);
-        rbusEventData_appendToMessage(&event, sub->filter, sub->interval, sub->duration, sub->componentId, msg);
-
-        RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", sub->eventName, sub->listener, sub->interval);
-        error = rbus_publishSubscriberEvent(
-                handleInfo->componentName,
-                sub->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
-                sub->listener,
-                msg,
-                sub->subscriptionId,
-                sub->rawData);
-
-        rbusMessage_Release(msg);
-        rbusObject_Release(data);
-        if(error != RBUSCORE_SUCCESS)
-        {
-            RBUSLOG_ERROR("Event_Publish failed with result=%d", result);
-        }
-
-        if (duration_complete)
-        {
-            break;
+            /* the subscription ends before the subscriber is told so, and only if nobody else has ended it meanwhile */
+            bool complete;
+            ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+            complete = sub_rec->running;
+            sub_rec->running = 0;
+            ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
+            if(complete)
+                rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub_rec->sub);
+            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
+            if(complete)
+                sub_publish(sub_rec, RBUS_EVENT_DURATION_COMPLETE, data);
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
         }
         else
         {
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+            if(sub_rec->running)
+                sub_publish(sub_rec, RBUS_EVENT_INTERVAL, data);
             count++;
         }
+        rbusObject_Release(data);
     }
     ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
-    if(duration_complete) {
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
-        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
-        ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
-        rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-    }
     RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
+
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
+    ERROR_CHECK(pthread_cond_broadcast(&gCond));
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return NULL;
 }
 
@@ -243,26 +260,43 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
         rtVector_Create(&gRecord);
 
     sub_rec = sub_find(sub);
-    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     if(!sub_rec)
     {
-        sub_rec = (sRecord*)rt_malloc(sizeof(sRecord));
+        pthread_t thread;
+        sub_rec = (sRecord*)rt_calloc(1, sizeof(sRecord));
         sub_rec->handle = handle;
-        sub_rec->node = propNode;
         sub_rec->sub = sub;
-        rbusProperty_Init(&sub_rec->property, propNode->fullName, NULL);
+        sub_rec->eventName = strdup(sub->eventName);
+        sub_rec->listener = strdup(sub->listener);
+        sub_rec->filter = sub->filter;
+        if(sub_rec->filter)
+            rbusFilter_Retain(sub_rec->filter);
+        sub_rec->interval = sub->interval;
+        sub_rec->duration = sub->duration;
+        sub_rec->componentId = sub->componentId;
+        sub_rec->subscriptionId = sub->subscriptionId;
+        sub_rec->rawData = sub->rawData;
         init_thread(sub_rec);
 
         /* Thread create */
         sub_rec->running = 1;
-        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
-
         rtVector_PushBack(gRecord, sub_rec);
+        if(pthread_create(&thread, NULL, PublishingThreadFunc, (void *)sub_rec) == 0)
+        {
+            pthread_detach(thread);
+        }
+        else
+        {
+            RBUSLOG_ERROR("failed to create the thread for %s", sub->eventName);
+            rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
+        }
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return RBUS_ERROR_SUCCESS; 
 }
 
-/* Delete Subscription Record from global record and stop it's running thread */
+/* The subscription ends: tell its thread, which publishes nothing more, without waiting for it (it could be waiting for
+   the caller's locks, or be in a get handler). */
 void rbusInterval_RemoveSubscriptionRecord(
         rbusHandle_t handle,
         elementNode* propNode,
@@ -272,30 +306,35 @@ void rbusInterval_RemoveSubscriptionRecord(
     (void)(propNode);
     VERIFY_NULL(sub);
 
-    if (!gRecord)
-    {
-        return;
-    }
-
     sRecord* rec;
     ERROR_CHECK(pthread_mutex_lock(&gMutex));
-    rec = sub_find(sub);
+    rec = gRecord ? sub_find(sub) : NULL;
+    if(rec)
+    {
+        ERROR_CHECK(pthread_mutex_lock(&rec->mutex));
+        rec->running = 0;
+        rec->sub = NULL;
+        ERROR_CHECK(pthread_cond_signal(&rec->cond));
+        ERROR_CHECK(pthread_mutex_unlock(&rec->mutex));
+    }
     ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+}
 
-    if(rec)
+/* Wait until no thread uses the handle, after its subscriptions have ended */
+void rbusInterval_CloseHandle(rbusHandle_t handle)
+{
+    size_t i;
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    for(i=0; gRecord && i < rtVector_Size(gRecord);)
     {
-        if(rec->running)
+        sRecord* rec = (sRecord*)rtVector_At(gRecord, i);
+        if(rec->handle == handle)
         {
-            rec->running = 0;
-            ERROR_CHECK(pthread_cond_signal(&rec->cond));
-            ERROR_CHECK(pthread_join(rec->thread, NULL));
+            ERROR_CHECK(pthread_cond_wait(&gCond, &gMutex));
+            i = 0;
         }
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        rtVector_RemoveItem(gRecord, rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-    }
-    else
-    {
-        RBUSLOG_ERROR("value not found\n");
+        else
+            i++;
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
 }
diff --git a/src/rbus/rbus_intervalsubscription.h b/src/rbus/rbus_intervalsubscription.h
index 26bd0b5..9d7a501 100644
--- a/src/rbus/rbus_intervalsubscription.h
+++ b/src/rbus/rbus_intervalsubscription.h
@@ -28,6 +28,7 @@ extern "C" {
 
 rbusError_t rbusInterval_AddSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
 void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
+void rbusInterval_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
 }
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index bc156fb..630fba0 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -20,6 +20,7 @@
 #include "rbus_subscriptions.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
+#include "rbus_intervalsubscription.h"
 #include <rtMemory.h>
 #include <string.h>
 #include <assert.h>
@@ -75,6 +76,9 @@ static void subscriptionFree(void* p)
     rtListItem item;
     VERIFY_NULL(sub);
 
+    if(sub->interval)
+        rbusInterval_RemoveSubscriptionRecord(NULL, NULL, sub);
+
     rtList_GetFront(sub->instances, &item);
     while(item)
     {
-- 
2.43.0


From 33360b9abd1be76a798011408815fc420a0bc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:19 +0000
Subject: [PATCH 36/49] fix: value-change polling could deadlock with
 subscribing and unsubscribing

The polling thread published with its own lock held, for which it needs the handle's subscription lock, while
subscribing and unsubscribing hold that lock when they add or remove a property.  Removing the last property also
waited for the thread with the subscription lock held, and a property added meanwhile could leave two threads, or
wait for ever.  Properties whose get handler failed were leaked.
---
 src/rbus/rbus.c             |   1 +
 src/rbus/rbus_valuechange.c | 124 +++++++++++++++++++++++++-----------
 src/rbus/rbus_valuechange.h |   1 +
 3 files changed, 88 insertions(+), 38 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 637b0c7..c585b44 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1335,6 +1335,7 @@ static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 
     /*update ValueChange before rbusSubscriptions_onTableRowRemoved */
     valueChangeTableRowUpdate(handle, rowInstElem, false);
+    rbusValueChange_WaitPublished();
 
     HANDLE_SUBS_MUTEX_LOCK(handle);
     rbusSubscriptions_onTableRowRemoved(handleInfo->subscriptions, rowInstElem);
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..debb54b 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -60,11 +60,14 @@
 
 typedef struct ValueChangeDetector_t
 {
-    int              running;
+    int              running;    //set until the thread ends, which it does by itself when there's nothing left to poll
+    int              joinable;   //there's a thread, which could have ended
+    int              publishing; //the thread uses handles without the lock
     rtVector         params;
     pthread_mutex_t  mutex;
     pthread_t        thread;
     pthread_cond_t   cond;
+    pthread_cond_t   idle;       //no longer publishing
 } ValueChangeDetector_t;
 
 typedef struct ValueChangeRecord
@@ -89,6 +92,8 @@ static void rbusValueChange_Init()
     gVC = rt_malloc(sizeof(struct ValueChangeDetector_t));
 
     gVC->running = 0;
+    gVC->joinable = 0;
+    gVC->publishing = 0;
     gVC->params = NULL;
 
     rtVector_Create(&gVC->params);
@@ -100,6 +105,7 @@ static void rbusValueChange_Init()
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gVC->cond, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&gVC->idle, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 }
 
@@ -124,12 +130,41 @@ static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
     return NULL;
 }
 
+typedef struct ValueChangeEvent
+{
+    rbusHandle_t handle;
+    char* name;
+    rbusObject_t data;
+} ValueChangeEvent;
+
+/* subscribing and unsubscribing call us with the handle's subscription lock held, which publishing needs,
+   so the events are published without our lock */
+static void vcEvents_Publish(void* p)
+{
+    ValueChangeEvent* ev = (ValueChangeEvent*)p;
+    rbusEvent_t event = {0};
+    rbusError_t result;
+
+    event.name = ev->name;
+    event.data = ev->data;
+    event.type = RBUS_EVENT_VALUE_CHANGED;
+    result = rbusEvent_Publish(ev->handle, &event);
+    if(result != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_WARN("Event_Publish failed with result=%d", result);
+    }
+    rbusObject_Release(ev->data);
+    free(ev->name);
+    free(ev);
+}
+
 static void* rbusValueChange_pollingThreadFunc(void *userData)
 {
+    rtVector events;
     (void)(userData);
     RBUSLOG_DEBUG("%s: start", __FUNCTION__);
     LOCK();
-    while(gVC->running)
+    while(rtVector_Size(gVC->params) > 0)
     {
         size_t i;
         int err;
@@ -147,10 +182,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
         
-        if(!gVC->running)
-        {
-            break;
-        }
+        rtVector_Create(&events);
 
         for(i=0; i < rtVector_Size(gVC->params); ++i)
         {
@@ -174,6 +206,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             if(result != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
+                rbusProperty_Release(property);
                 continue;
             }
 
@@ -186,7 +219,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
 
             if(rbusValue_Compare(newVal, oldVal))
             {
-                rbusEvent_t event = {0};
+                ValueChangeEvent* event;
                 rbusObject_t data;
                 rbusValue_t byVal = NULL;
 
@@ -216,17 +249,11 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                 rbusObject_SetValue(data, "by", byVal);
                 rbusValue_Release(byVal);
 
-                event.name = rbusProperty_GetName(rec->property);
-                event.data = data;
-                event.type = RBUS_EVENT_VALUE_CHANGED;
-                result = rbusEvent_Publish(rec->handle, &event);
-
-                rbusObject_Release(data);
-
-                if(result != RBUS_ERROR_SUCCESS)
-                {
-                    RBUSLOG_WARN("Event_Publish failed with result=%d", result);
-                }
+                event = rt_malloc(sizeof(ValueChangeEvent));
+                event->handle = rec->handle;
+                event->name = strdup(rbusProperty_GetName(rec->property));
+                event->data = data;
+                rtVector_PushBack(events, event);
 
                 /*update the record's property with new value*/
                 rbusProperty_SetValue(rec->property, rbusProperty_GetValue(property));
@@ -238,7 +265,15 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                 rbusProperty_Release(property);
             }
         }
+
+        gVC->publishing = 1;
+        UNLOCK();
+        rtVector_Destroy(events, vcEvents_Publish);
+        LOCK();
+        gVC->publishing = 0;
+        ERROR_CHECK(pthread_cond_broadcast(&gVC->idle));
     }
+    gVC->running = 0;
     UNLOCK();
     RBUSLOG_DEBUG("%s: stop", __FUNCTION__);
     return NULL;
@@ -319,7 +354,12 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         if(!gVC->running)
         {
+            if(gVC->joinable)
+            {
+                ERROR_CHECK(pthread_join(gVC->thread, NULL));//it has ended
+            }
             gVC->running = 1;
+            gVC->joinable = 1;
             pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
         }
 
@@ -330,7 +370,6 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
-    bool stopThread = false;
 
     (void)(handle);
     VERIFY_NULL(propNode);
@@ -346,15 +385,11 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     if(rec)
     {
         rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
-        /* if there's nothing left to poll then shutdown the polling thread */
-        if(gVC->running && rtVector_Size(gVC->params) == 0)
-        {
-            stopThread = true;
-            gVC->running = 0;
-        }
-        else 
+        /* if there's nothing left to poll then the polling thread shuts down; it isn't waited for,
+           because it could be waiting for the subscription lock that our caller holds */
+        if(rtVector_Size(gVC->params) == 0)
         {
-            stopThread = false;
+            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
         }
     }
     else
@@ -362,11 +397,22 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
         RBUSLOG_WARN("value change param not found: %s", propNode->fullName);
     }
     UNLOCK();//############ UNLOCK ############
-    if(stopThread)
+}
+
+/* Wait until nothing is being published, so that elements which have been removed can be freed.
+   The caller holds no subscription lock. */
+void rbusValueChange_WaitPublished()
+{
+    if(!gVC)
     {
-        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-        ERROR_CHECK(pthread_join(gVC->thread, NULL));
+        return;
+    }
+    LOCK();//############ LOCK ############
+    while(gVC->publishing)
+    {
+        ERROR_CHECK(pthread_cond_wait(&gVC->idle, &gVC->mutex));
     }
+    UNLOCK();//############ UNLOCK ############
 }
 
 void rbusValueChange_CloseHandle(rbusHandle_t handle)
@@ -395,23 +441,25 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         }
     }
 
+    //the polling thread may be publishing for this handle
+    while(gVC->publishing)
+    {
+        ERROR_CHECK(pthread_cond_wait(&gVC->idle, &gVC->mutex));
+    }
+
     //clean up everything once all params are removed
     //but check the size to ensure we do not clean up if params for other rbus handles exist
     if(rtVector_Size(gVC->params) == 0)
     {
-        if(gVC->running)
+        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
+        UNLOCK();//############ UNLOCK ############
+        if(gVC->joinable)
         {
-            gVC->running = 0;
-            UNLOCK();//############ UNLOCK ############
-            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
             ERROR_CHECK(pthread_join(gVC->thread, NULL));
         }
-        else
-        {
-            UNLOCK();//############ UNLOCK ############
-        }
         ERROR_CHECK(pthread_mutex_destroy(&gVC->mutex));
         ERROR_CHECK(pthread_cond_destroy(&gVC->cond));
+        ERROR_CHECK(pthread_cond_destroy(&gVC->idle));
         rtVector_Destroy(gVC->params, NULL);
         gVC->params = NULL;
         free(gVC);
diff --git a/src/rbus/rbus_valuechange.h b/src/rbus/rbus_valuechange.h
index 6ecb433..f754931 100644
--- a/src/rbus/rbus_valuechange.h
+++ b/src/rbus/rbus_valuechange.h
@@ -28,6 +28,7 @@ extern "C" {
 
 void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode);
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode);
+void rbusValueChange_WaitPublished();
 void rbusValueChange_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
-- 
2.43.0


From a5ef8b8ea4d4002e6b4383c8e566d2a8835e3c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 37/49] fix: value-change events could name a component that
 did not make the change

Once a component had set a property, changes which the provider made itself were reported as that component's for
ever.  The name could also be freed by the next set while the polling thread read it.
---
 src/rbus/rbus.c             |  3 ++-
 src/rbus/rbus_valuechange.c | 24 +++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index c585b44..2167ecd 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1605,6 +1605,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
 
                         ELM_PRIVATE_LOCK(el);
                         rc = el->cbTable.setHandler(handle, pProperties[loopCnt], &opts);
+                        if(rc == RBUS_ERROR_SUCCESS)
+                            setPropertyChangeComponent(el, pCompName);
                         ELM_PRIVATE_UNLOCK(el);
                         if (rc != RBUS_ERROR_SUCCESS)
                         {
@@ -1616,7 +1618,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         }
                         else
                         {
-                            setPropertyChangeComponent(el, pCompName);
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index debb54b..718e2f9 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -75,6 +75,7 @@ typedef struct ValueChangeRecord
     rbusHandle_t handle;    //needed when calling rbus_getHandler and rbusEvent_Publish
     elementNode const* node;    //used to call the rbus_getHandler is contains
     rbusProperty_t property;    //the parameter with value that gets cached
+    rtTime_t polled;            //when that value was got
 } ValueChangeRecord;
 
 ValueChangeDetector_t* gVC = NULL;
@@ -199,14 +200,22 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             memset(&opts, 0, sizeof(rbusGetHandlerOptions_t));
             opts.requestingComponent = "valueChangePollThread";
 
+            rtTime_t polled;
+            char* by = NULL;
+
             ELM_PRIVATE_LOCK(rec->node);
+            rtTime_Now(&polled);
             int result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
+            /* who set it since it was polled last, if anybody did */
+            if(rec->node->changeComp && rtTime_Compare(&rec->node->changeTime, &rec->polled) >= 0)
+                by = strdup(rec->node->changeComp);
             ELM_PRIVATE_UNLOCK(rec->node);
 
             if(result != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
                 rbusProperty_Release(property);
+                free(by);
                 continue;
             }
 
@@ -229,23 +238,16 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                    The source of a value-change could be an external component calling rbus_set or the provider internally updating
                    the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
                    We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
-                   If we don't have a changeComp or we do but the changeTime is older then the current polling period,
+                   If we don't have a changeComp or we do but the changeTime is older than the previous poll,
                    then we know it was the provider who updated the value we are now detecting.
                 */
-                if(rec->node->changeComp == NULL || 
-                   (rtTime_Elapsed(&rec->node->changeTime, NULL) >= RBUS_VALUECHANGE_PERIOD &&
-                   strcmp(rec->handle->componentName, rec->node->changeComp) == 0))
-                {
-                    printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp, rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
-                    setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
-                }
 
                 rbusObject_Init(&data, NULL);
                 rbusObject_SetValue(data, "value", newVal);
                 rbusObject_SetValue(data, "oldValue", oldVal);
 
                 rbusValue_Init(&byVal);
-                rbusValue_SetString(byVal, rec->node->changeComp);
+                rbusValue_SetString(byVal, by ? by : rec->handle->componentName);
                 rbusObject_SetValue(data, "by", byVal);
                 rbusValue_Release(byVal);
 
@@ -256,14 +258,17 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                 rtVector_PushBack(events, event);
 
                 /*update the record's property with new value*/
+                rec->polled = polled;
                 rbusProperty_SetValue(rec->property, rbusProperty_GetValue(property));
                 rbusProperty_Release(property);
             }
             else
             {
                 RBUSLOG_DEBUG("value change not detected for %s", rbusProperty_GetName(rec->property));
+                rec->polled = polled;
                 rbusProperty_Release(property);
             }
+            free(by);
         }
 
         gVC->publishing = 1;
@@ -331,6 +336,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         /*get and cache the current value
           the polling thread will periodically re-get and compare to detect value changes*/
         ELM_PRIVATE_LOCK(propNode);
+        rtTime_Now(&rec->polled);
         int result = propNode->cbTable.getHandler(handle, rec->property, &opts);
         ELM_PRIVATE_UNLOCK(propNode);
 
-- 
2.43.0


From 498e48bcc3a65717e35d78efe7fe50d52e1f9fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 38/49] fix: subscribing to a property without a get handler
 terminated its provider

---
 src/rbus/rbus_valuechange.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index 718e2f9..3137f8b 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -307,7 +307,6 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         RBUSLOG_WARN("propNode type %d error", propNode->type);
         return;
     }
-    assert(propNode->cbTable.getHandler);
     if(!propNode->cbTable.getHandler)
     {
         RBUSLOG_WARN("propNode getHandler NULL error");
-- 
2.43.0


From 868ada6e99218fdcbef5fd258c02169f152c264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 39/49] fix: rbus_close could wait forever for a callback which
 waited for rbus_close

---
 src/core/rbuscore.c      |  4 ++++
 src/rbus/rbus.c          |  4 ----
 src/rbus/rbus_handle.c   | 22 +++++++++++++++++++---
 src/rtmessage/rtVector.c |  1 +
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d87b5..075008a 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -391,10 +391,13 @@ static void perform_cleanup()
     lock();
 
     rtVector_Destroy(g_server_objects, server_object_destroy);
+    g_server_objects = NULL;
 
     rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
+    gListOfServerDirectDMLs = NULL;
     _rbuscore_destroy_clientPrivate_connections();
     rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
+    gListOfClientDirectDMLs = NULL;
 
     sz = rtVector_Size(g_event_subscriptions_for_client);
     if(sz>0)
@@ -416,6 +419,7 @@ static void perform_cleanup()
         lock();
     }
     rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
+    g_event_subscriptions_for_client = NULL;
 
     unlock();
 }
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 2167ecd..ec0fe41 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1380,9 +1380,7 @@ static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 
 static void _client_disconnect_callback_handler(const char * listener)
 {
-    LockMutex();
     rbusHandleList_ClientDisconnect(listener);
-    UnlockMutex();
 }
 
 void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
@@ -1464,9 +1462,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message);
 
-    LockMutex();
     handleInfo = rbusHandleList_GetByComponentID(componentId);
-    UnlockMutex();
 
     if(!handleInfo)
     {
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 3025718..6ab7e1d 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -23,6 +23,9 @@
 #include <unistd.h>
 #include <stdlib.h>
 static rtVector gHandleList = NULL;
+/* guards gHandleList where callbacks use it. A callback cannot wait for the lock which rbus_open and rbus_close hold,
+   because rbus_close waits for running callbacks to return */
+static pthread_mutex_t gHandleListMutex = PTHREAD_MUTEX_INITIALIZER;
 
 #define VERIFY_NULL(T,R) if(NULL == T){ RBUSLOG_ERROR(#T" is NULL"); R; }
 #define BUF_LEN 128
@@ -72,23 +75,26 @@ bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle)
 void rbusHandleList_Add(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
+    pthread_mutex_lock(&gHandleListMutex);
     if(!gHandleList)
         rtVector_Create(&gHandleList);
     RBUSLOG_DEBUG("adding %p", handle);
     rtVector_PushBack(gHandleList, handle);
+    pthread_mutex_unlock(&gHandleListMutex);
 }
 
 void rbusHandleList_Remove(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
     RBUSLOG_DEBUG("removing %p", handle);
+    pthread_mutex_lock(&gHandleListMutex);
     rtVector_RemoveItem(gHandleList, handle, rtVector_Cleanup_Free);
     if(rtVector_Size(gHandleList) == 0)
     {
         rtVector_Destroy(gHandleList, NULL);
         gHandleList = NULL;
-        return;
     }
+    pthread_mutex_unlock(&gHandleListMutex);
 }
 
 bool rbusHandleList_IsEmpty()
@@ -106,7 +112,10 @@ void rbusHandleList_ClientDisconnect(char const* clientListener)
 {
     size_t i;
     size_t len;
+    bool opened;
     VERIFY_NULL(clientListener,return);
+    pthread_mutex_lock(&gHandleListMutex);
+    opened = gHandleList != NULL;
     if(gHandleList)/*this could theoretically be null if advisory event comes in between the time rbus_close calls 
                   rbusHandleList_Remove and rbus_unregisterClientDisconnectHandler*/
     {
@@ -122,7 +131,11 @@ void rbusHandleList_ClientDisconnect(char const* clientListener)
             }
             HANDLE_SUBS_MUTEX_UNLOCK(handle);
         }
+    }
+    pthread_mutex_unlock(&gHandleListMutex);
 
+    if(opened)
+    {
         /* Update the Direct Connection */
         rbuscore_terminatePrivateConnection(clientListener);
     }
@@ -133,18 +146,21 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
     size_t i;
     size_t len;
     struct _rbusHandle* handle = NULL;
+    pthread_mutex_lock(&gHandleListMutex);
     if(gHandleList)
     {
         len = rtVector_Size(gHandleList);
         for(i = 0; i < len; i++)
         {
-            handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(handle->componentId == componentId)
+            struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+            if(tmp->componentId == componentId)
             {
+                handle = tmp;
                 break;
             }
         }
     }
+    pthread_mutex_unlock(&gHandleListMutex);
     return handle;
 }
 
diff --git a/src/rtmessage/rtVector.c b/src/rtmessage/rtVector.c
index 99827ea..e819ce1 100644
--- a/src/rtmessage/rtVector.c
+++ b/src/rtmessage/rtVector.c
@@ -185,6 +185,7 @@ void*
 rtVector_Find(rtVector v, const void* comparison, rtVector_Compare compare)
 {
   size_t i;
+  if (!v) return NULL;
   for (i = 0; i < v->count; ++i)
   {
     if(compare)
-- 
2.43.0


From bbed81c175dde8f826fdf78fbf4ed215ec9e6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:44 +0000
Subject: [PATCH 40/49] fix: a provider killed while saving its subscriptions
 lost all of them

---
 src/rbus/rbus_subscriptions.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 630fba0..942178e 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -632,8 +632,12 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
     rtListItem item;
     rbusSubscription_t* sub;
     char filePath[256];
+    char newPath[264];
+    bool written;
 
     snprintf(filePath, 256, CACHE_FILE_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
+    /*a process that dies while saving must not lose what was saved before*/
+    snprintf(newPath, sizeof(newPath), "%s.new", filePath);
 
     RBUSLOG_DEBUG("saving Cache %s", filePath);
 
@@ -649,11 +653,11 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         return;
     }
 
-    file = fopen(filePath, "wb");
+    file = fopen(newPath, "wb");
 
     if(!file)
     {
-        RBUSLOG_ERROR("failed to open %s", filePath);
+        RBUSLOG_ERROR("failed to open %s", newPath);
         return;
     }
 
@@ -666,6 +670,7 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         {
             rbusBuffer_Destroy(buff);
             fclose(file);
+            remove(newPath);
             return;
         }
         rbusBuffer_WriteStringTLV(buff, sub->listener, strlen(sub->listener)+1);
@@ -685,11 +690,18 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         rtListItem_GetNext(item, &item);
     }
 
-    fwrite(buff->data, 1, buff->posWrite, file);
+    written = fwrite(buff->data, 1, buff->posWrite, file) == (size_t)buff->posWrite;
 
     rbusBuffer_Destroy(buff);
 
-    fclose(file);
+    if(fclose(file) != 0)
+        written = false;
+
+    if(!written || rename(newPath, filePath) != 0)
+    {
+        RBUSLOG_ERROR("failed to save %s", filePath);
+        remove(newPath);
+    }
 }
 
 /*this is basicially a strcmp with the addition that it will ignore any wildcard (e.g. "*") in the event name
-- 
2.43.0


From 9567f5e760679af9769f819ade7c2835cc027ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 41/49] fix: requests for an element could be refused while it
 was being registered

---
 src/rbus/rbus.c         | 11 +++++++++--
 src/rbus/rbus_element.c |  9 +++++++++
 src/rbus/rbus_handle.h  |  1 +
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index ec0fe41..16b0ae4 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3090,6 +3090,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     FILE *fd  =  fopen(filename, "w");
     if (fd)
     {
+    ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_regMutex, &attrib));
         RBUSLOG_DEBUG("(%s): %s File created successfully", componentName, filename);
         fclose(fd);
     }
@@ -3312,6 +3313,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
 #endif
         if((err = rbus_closeBrokerConnection()) != RBUSCORE_SUCCESS)
         {
+    ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_regMutex));
             RBUSLOG_ERROR("(%s): rbus_closeBrokerConnection error %d", componentName, err);
             ret = RBUS_ERROR_BUS_ERROR;
         }
@@ -3387,11 +3389,16 @@ rbusError_t rbus_regDataElements(
         }
         else
         {
-            elementNode* node;
-            if((node = insertElement(handleInfo->elementRoot, &elements[i])) == NULL)
+            elementNode* node = insertElement(handleInfo->elementRoot, &elements[i]);
+            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_regMutex));
+            if(node == NULL)
             {
+        /*requests for the element can arrive as soon as the bus knows the name*/
+        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_regMutex));
+
                 RBUSLOG_ERROR("failed to insert element [%s]!!", name);
                 rc = RBUS_ERROR_OUT_OF_RESOURCES;
+            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_regMutex));
                 break;
             }
             else
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..f8ac730 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -23,6 +23,7 @@
 #include <rbus.h>
 #include <assert.h>
 #include "rbus_element.h"
+#include "rbus_handle.h"
 #include "rbus_subscriptions.h"
 #include <rtMemory.h>
 
@@ -493,6 +494,14 @@ elementNode* retrieveInstanceElementEx(rbusHandle_t handle, elementNode* root, c
     bool isWildcard = false;
 
     RBUSLOG_DEBUG("Request to retrieve element [%s]", elmentName);
+
+    if(handle)
+    {
+        /*the bus may know an element that rbus_regDataElements is about to insert*/
+        pthread_mutex_lock(&handle->handle_regMutex);
+        pthread_mutex_unlock(&handle->handle_regMutex);
+        currentNode = root = handle->elementRoot;
+    }
    
     if(currentNode == NULL)
     {
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index db8c0c5..4da0b86 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -121,6 +121,7 @@ struct _rbusHandle
   rbusHandleType_t      m_handleType;
   pthread_mutex_t       handle_eventSubsMutex;
   pthread_mutex_t       handle_subsMutex;
+  pthread_mutex_t       handle_regMutex; /* an element is being made known to the bus and to this handle */
   rtConnection          m_connectionParent;
   rbusTimeoutValues_t   timeoutValues;
 };
-- 
2.43.0


From a21e069a8b05215794f083ffcee4a8c59032c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 42/49] fix: rbus_close freed what running handlers used

---
 src/core/rbuscore.c          | 66 ++++++++++++++++++++++++++++++++++--
 src/rbus/rbus.c              | 16 ++++++---
 src/rbus/rbus_handle.c       | 28 +++++++++++++--
 src/rbus/rbus_handle.h       |  9 ++++-
 src/rtmessage/rtConnection.c | 16 +++++++++
 src/rtmessage/rtConnection.h |  9 +++++
 6 files changed, 133 insertions(+), 11 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 075008a..07d67ba 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -93,6 +93,8 @@ typedef struct _server_object
     rtVector subscriptions; /*list of server_event_t*/
     rbus_event_subscribe_callback_t subscribe_handler_override;
     void* subscribe_handler_data;
+    int dispatching; /*requests whose handler is running*/
+    bool unregistered;
 } *server_object_t;
 
 /////////////
@@ -198,6 +200,8 @@ void server_object_create(server_object_t* obj, char const* name, rbus_callback_
     (*obj)->process_event_subscriptions = false;
     (*obj)->subscribe_handler_override = NULL;
     (*obj)->subscribe_handler_data = NULL;
+    (*obj)->dispatching = 0;
+    (*obj)->unregistered = false;
     rtVector_Create(&(*obj)->methods);
     rtVector_Create(&(*obj)->subscriptions);
 }
@@ -323,6 +327,8 @@ static char g_daemon_address[MAX_DAEMON_ADDRESS_LEN] = "unix:///tmp/rtrouted";
 static rtConnection g_connection = NULL;
 static rtVector g_server_objects; /*server_object_t list*/
 static pthread_mutex_t g_mutex;
+static pthread_cond_t g_dispatched = PTHREAD_COND_INITIALIZER; /*a request's handler has returned*/
+static __thread server_object_t t_dispatching = NULL; /*the object whose handler this thread runs*/
 static pthread_mutex_t g_directCliMutex;
 static pthread_mutex_t g_directServMutex;
 static int g_mutex_init = 0;
@@ -468,6 +474,34 @@ static server_object_t get_object(const char * object_name)
     return rtVector_Find(g_server_objects, object_name, server_object_compare);
 }
 
+/*Marks a request as being handled, so that its object isn't unregistered meanwhile. Call with lock held*/
+static bool dispatch_begin(server_object_t obj)
+{
+    size_t i, sz = g_server_objects ? rtVector_Size(g_server_objects) : 0;
+    for(i = 0; i < sz; ++i)
+    {
+        if(rtVector_At(g_server_objects, i) == obj)
+        {
+            obj->dispatching++;
+            return true;
+        }
+    }
+    return false;
+}
+
+static void dispatch_end(server_object_t obj)
+{
+    lock();
+    if(--obj->dispatching == 0)
+    {
+        if(obj->unregistered)
+            server_object_destroy(obj); /*its own handler unregistered it*/
+        else
+            pthread_cond_broadcast(&g_dispatched);
+    }
+    unlock();
+}
+
 static rbusCoreError_t translate_rt_error(rtError err)
 {
     if(RT_OK == err)
@@ -484,12 +518,23 @@ static void dispatch_method_call(rbusMessage msg, const rtMessageHeader *hdr, se
     const char* traceState = NULL;
     rbusMessage response = NULL;
     bool handler_invoked = false;
+    server_object_t outer = t_dispatching;
 
     /* Fetch the context that was sent with the message */
     _rbusMessage_GetMetaInfo(msg, &method_name, &traceParent, &traceState);
     rbus_setOpenTelemetryContext(traceParent, traceState);
 
     lock();
+    if(!dispatch_begin(obj))
+    {
+        unlock();
+        RBUSCORELOG_INFO("Request for %s which has been unregistered.", hdr->topic);
+        rbus_clearOpenTelemetryContext();
+        if(rtMessageHeader_IsRequest(hdr) && (err = rtConnection_SendUndeliverable(g_connection, hdr)) != RT_OK)
+            RBUSCORELOG_ERROR("Failed to refuse a request. Error code: 0x%x", err);
+        return;
+    }
+    t_dispatching = obj;
     if( rtVector_Size(obj->methods) > 0 && RT_OK == err)
     {
         server_method_t method = rtVector_Find(obj->methods, method_name, server_method_compare);
@@ -504,9 +549,15 @@ static void dispatch_method_call(rbusMessage msg, const rtMessageHeader *hdr, se
     if(false == handler_invoked)
     {
         unlock();
-        if(obj->callback(hdr->topic, method_name, msg, obj->data, &response, hdr) == RBUSCORE_SUCCESS_ASYNC) //FIXME: potential for race
+        if(obj->callback(hdr->topic, method_name, msg, obj->data, &response, hdr) == RBUSCORE_SUCCESS_ASYNC)
+        {
+            t_dispatching = outer;
+            dispatch_end(obj);
             return;/*provider will send response async later on*/
+        }
     }
+    t_dispatching = outer;
+    dispatch_end(obj);
     /* Clear the context for next method */
     rbus_clearOpenTelemetryContext();
 
@@ -976,7 +1027,18 @@ rbusCoreError_t rbus_unregisterObj(const char * object_name)
     server_object_t obj = get_object(object_name);
     if(NULL != obj)
     {
-        rtVector_RemoveItem(g_server_objects, obj, server_object_destroy);
+        rtVector_RemoveItem(g_server_objects, obj, NULL);
+        if(t_dispatching == obj)
+        {
+            obj->unregistered = true; /*destroyed when its handler, which called this, returns*/
+        }
+        else
+        {
+            /*its handlers use what the caller frees next*/
+            while(obj->dispatching > 0)
+                pthread_cond_wait(&g_dispatched, &g_mutex);
+            server_object_destroy(obj);
+        }
         RBUSCORELOG_INFO("Unregistered object %s.", object_name);
     }
     else
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 16b0ae4..96c02a3 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1462,7 +1462,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message);
 
-    handleInfo = rbusHandleList_GetByComponentID(componentId);
+    handleInfo = rbusHandleList_AcquireByComponentID(componentId);
 
     if(!handleInfo)
     {
@@ -1503,6 +1503,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
     {
         RBUSLOG_DEBUG("Received master event callback: sender=%s eventName=%s, but no subscription found", sender, event.name);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
+        rbusHandleList_Release(handleInfo);
         rbusObject_Release(event.data);
         rbusFilter_Release(filter);
         return RBUSCORE_ERROR_EVENT_NOT_HANDLED;
@@ -1512,6 +1513,7 @@ exit_1:
     rbusFilter_Release(filter);
 
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
+    rbusHandleList_Release(handleInfo);
     return RBUSCORE_SUCCESS;
 }
 
@@ -3230,6 +3232,13 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
+    /*these wait for the events and requests being handled, which use what is freed below*/
+    rbusHandleList_BeginClose(handleInfo);
+    if((err = rbus_unregisterObj(handleInfo->componentName)) != RBUSCORE_SUCCESS)
+    {
+        RBUSLOG_ERROR("(%s): unregisterObj error %d", handleInfo->componentName, err);
+    }
+
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
@@ -3287,11 +3296,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
         handleInfo->elementRoot = NULL;
     }
 
-    if((err = rbus_unregisterObj(handleInfo->componentName)) != RBUSCORE_SUCCESS)
-    {
-        RBUSLOG_ERROR("(%s): unregisterObj error %d", handleInfo->componentName, err);
+    if(err != RBUSCORE_SUCCESS)
         ret = RBUS_ERROR_INVALID_HANDLE;
-    }
 
     componentName = handleInfo->componentName;
     handleInfo->componentName=NULL;
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 6ab7e1d..ba8e460 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -26,6 +26,8 @@ static rtVector gHandleList = NULL;
 /* guards gHandleList where callbacks use it. A callback cannot wait for the lock which rbus_open and rbus_close hold,
    because rbus_close waits for running callbacks to return */
 static pthread_mutex_t gHandleListMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gHandleListCond = PTHREAD_COND_INITIALIZER;
+static __thread struct _rbusHandle* tCallback = NULL; /*whose event callback this thread runs*/
 
 #define VERIFY_NULL(T,R) if(NULL == T){ RBUSLOG_ERROR(#T" is NULL"); R; }
 #define BUF_LEN 128
@@ -124,7 +126,7 @@ void rbusHandleList_ClientDisconnect(char const* clientListener)
         {
             struct _rbusHandle* handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
             HANDLE_SUBS_MUTEX_LOCK(handle);
-            if(handle->subscriptions)
+            if(handle->subscriptions && !handle->closing)
             {
                 /*assuming this doesn't reenter this api which could possibly deadlock*/
                 rbusSubscriptions_handleClientDisconnect(handle, handle->subscriptions, clientListener);
@@ -141,7 +143,7 @@ void rbusHandleList_ClientDisconnect(char const* clientListener)
     }
 }
 
-struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
+struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId)
 {
     size_t i;
     size_t len;
@@ -153,9 +155,11 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
         for(i = 0; i < len; i++)
         {
             struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(tmp->componentId == componentId)
+            if(tmp->componentId == componentId && !tmp->closing)
             {
                 handle = tmp;
+                handle->callbacks++;
+                tCallback = handle;
                 break;
             }
         }
@@ -164,6 +168,24 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
     return handle;
 }
 
+void rbusHandleList_Release(struct _rbusHandle* handle)
+{
+    pthread_mutex_lock(&gHandleListMutex);
+    tCallback = NULL;
+    handle->callbacks--;
+    pthread_cond_broadcast(&gHandleListCond);
+    pthread_mutex_unlock(&gHandleListMutex);
+}
+
+void rbusHandleList_BeginClose(struct _rbusHandle* handle)
+{
+    pthread_mutex_lock(&gHandleListMutex);
+    handle->closing = true;
+    while(handle->callbacks > 0 && tCallback != handle)
+        pthread_cond_wait(&gHandleListCond, &gHandleListMutex);
+    pthread_mutex_unlock(&gHandleListMutex);
+}
+
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName)
 {
     size_t i;
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index 4da0b86..50d8489 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -124,6 +124,10 @@ struct _rbusHandle
   pthread_mutex_t       handle_regMutex; /* an element is being made known to the bus and to this handle */
   rtConnection          m_connectionParent;
   rbusTimeoutValues_t   timeoutValues;
+
+  /* guarded by the mutex of the handle list */
+  int                   callbacks; /* event callbacks that are running */
+  bool                  closing;
 };
 
 bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle);
@@ -132,7 +136,10 @@ void rbusHandleList_Remove(struct _rbusHandle* handle);
 bool rbusHandleList_IsEmpty();
 bool rbusHandleList_IsFull();
 void rbusHandleList_ClientDisconnect(char const* clientListener);
-struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId);
+/* the handle isn't closed until it's released; NULL once rbusHandleList_BeginClose was called */
+struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId);
+void rbusHandleList_Release(struct _rbusHandle* handle);
+void rbusHandleList_BeginClose(struct _rbusHandle* handle);
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName);
 
 int rbusHandle_TimeoutValuesInit(rbusHandle_t handle);
diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 142fba0..154f9f9 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -866,6 +866,22 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
   }
 }
 
+rtError
+rtConnection_SendUndeliverable(rtConnection con, rtMessageHeader const* request_hdr)
+{
+  rtError err;
+  uint8_t const nothing = 0;
+
+  if (!con)
+    return rtErrorFromErrno(EINVAL);
+
+  pthread_mutex_lock(&con->mutex);
+  err = rtConnection_SendInternal(con, &nothing, sizeof(nothing), request_hdr->reply_topic, request_hdr->topic,
+    rtMessageFlags_Response | rtMessageFlags_Undeliverable, request_hdr->sequence_number, 0, 0, 0);
+  pthread_mutex_unlock(&con->mutex);
+  return err;
+}
+
 rtError
 rtConnection_SendBinary(rtConnection con, uint8_t const* p, uint32_t n, char const* topic)
 {
diff --git a/src/rtmessage/rtConnection.h b/src/rtmessage/rtConnection.h
index feb1700..6e16340 100644
--- a/src/rtmessage/rtConnection.h
+++ b/src/rtmessage/rtConnection.h
@@ -121,6 +121,15 @@ rtError
 rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr, rtMessage const res,
   int32_t timeout);
 
+/**
+ * Answers a request that has nobody to handle it any more, as the router does when there is no route
+ * @param con
+ * @param hdr
+ * @return error
+ */
+rtError
+rtConnection_SendUndeliverable(rtConnection con, rtMessageHeader const* request_hdr);
+
 /******************************************************************************************
  *  Binary based API
  */
-- 
2.43.0


From 55eed1821316c66cc90faf41922a85c54ef21934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 43/49] fix: asynchronous subscriptions: use after free on
 cancel and close, lost events, wrong retry limit

---
 src/rbus/rbus.c                |  76 ++++----
 src/rbus/rbus_asyncsubscribe.c | 309 ++++++++++++++++++++++-----------
 src/rbus/rbus_asyncsubscribe.h |   4 +-
 3 files changed, 259 insertions(+), 130 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 96c02a3..edfdef0 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1383,34 +1383,43 @@ static void _client_disconnect_callback_handler(const char * listener)
     rbusHandleList_ClientDisconnect(listener);
 }
 
+/*called with the eventSubs mutex of the handle locked, which this unlocks*/
 void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    subscription->asyncHandler(subscription->handle, subscription, error);
-    if(subscription)
+    if(error == RBUS_ERROR_SUCCESS)
     {
-        if(error == RBUS_ERROR_SUCCESS)
-        {
-            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            rbusEventSubscriptionInternal_t* subInternal = NULL;
-            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
-                            subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
-            {
-                rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
-            }
-            subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
-            subInternal->sub = subscription;
-            subInternal->dirty = false;
-            subInternal->subscriptionId = subscriptionId;
-            subInternal->rawData = false;
-            rtVector_PushBack(handleInfo->eventSubs, subInternal);
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-        }
-        else
+        rbusEventSubscription_t copy = *subscription;
+        rbusEventSubscriptionInternal_t* subInternal = NULL;
+        if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
+                        subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
         {
-            rbusEventSubscription_free(subscription);
+            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
         }
+        subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
+        subInternal->sub = subscription;
+        subInternal->dirty = false;
+        subInternal->subscriptionId = subscriptionId;
+        subInternal->rawData = false;
+        rtVector_PushBack(handleInfo->eventSubs, subInternal);
+        /*it can be unsubscribed, and freed, from now on*/
+        copy.eventName = strdup(copy.eventName);
+        if(copy.filter)
+            rbusFilter_Retain(copy.filter);
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+
+        copy.asyncHandler(handle, &copy, error);
+
+        free((void*)copy.eventName);
+        if(copy.filter)
+            rbusFilter_Release(copy.filter);
+    }
+    else
+    {
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        subscription->asyncHandler(handle, subscription, error);
+        rbusEventSubscription_free(subscription);
     }
 }
 
@@ -3081,6 +3090,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_eventSubsMutex, &attrib));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_subsMutex, &attrib));
+    ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_regMutex, &attrib));
 
     *handle = tmpHandle;
 
@@ -3092,7 +3102,6 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     FILE *fd  =  fopen(filename, "w");
     if (fd)
     {
-    ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_regMutex, &attrib));
         RBUSLOG_DEBUG("(%s): %s File created successfully", componentName, filename);
         fclose(fd);
     }
@@ -3232,6 +3241,9 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
+    /*before anything of the handle is gone, and without the mutex because it can wait for a callback*/
+    rbusAsyncSubscribe_CloseHandle(handle);
+
     /*these wait for the events and requests being handled, which use what is freed below*/
     rbusHandleList_BeginClose(handleInfo);
     if((err = rbus_unregisterObj(handleInfo->componentName)) != RBUSCORE_SUCCESS)
@@ -3288,8 +3300,6 @@ rbusError_t rbus_close(rbusHandle_t handle)
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
     rbusInterval_CloseHandle(handle);
 
-    rbusAsyncSubscribe_CloseHandle(handle);
-
     if(handleInfo->elementRoot)
     {
         freeElementNode(handleInfo->elementRoot);
@@ -3303,12 +3313,15 @@ rbusError_t rbus_close(rbusHandle_t handle)
     handleInfo->componentName=NULL;
     ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_eventSubsMutex));
     ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_subsMutex));
+    ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_regMutex));
     rbusHandleList_Remove(handleInfo);
 
     if(rbusHandleList_IsEmpty())
     {
         RBUSLOG_DEBUG("(%s): closing broker connection", componentName);
 
+        rbusAsyncSubscribe_Destroy();
+
 #if 0
         //calling before closing connection
         if((err = rbus_unregisterClientDisconnectHandler()) != RBUSCORE_SUCCESS)
@@ -3319,7 +3332,6 @@ rbusError_t rbus_close(rbusHandle_t handle)
 #endif
         if((err = rbus_closeBrokerConnection()) != RBUSCORE_SUCCESS)
         {
-    ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_regMutex));
             RBUSLOG_ERROR("(%s): rbus_closeBrokerConnection error %d", componentName, err);
             ret = RBUS_ERROR_BUS_ERROR;
         }
@@ -3380,8 +3392,12 @@ rbusError_t rbus_regDataElements(
             rbusSubscriptions_create(&handleInfo->subscriptions, handle, handleInfo->componentName, handleInfo->elementRoot, RBUS_TMP_DIRECTORY);
         }
 
+        /*requests for the element can arrive as soon as the bus knows the name*/
+        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_regMutex));
+
         if((err = rbus_addElement(handleInfo->componentName, name)) != RBUSCORE_SUCCESS)
         {
+            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_regMutex));
             RBUSLOG_ERROR("failed to add element with core [%s] err=%d!!", name, err);
             if(err == RBUSCORE_ERROR_UNSUPPORTED_ENTRY)
             {
@@ -3399,12 +3415,8 @@ rbusError_t rbus_regDataElements(
             ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_regMutex));
             if(node == NULL)
             {
-        /*requests for the element can arrive as soon as the bus knows the name*/
-        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_regMutex));
-
                 RBUSLOG_ERROR("failed to insert element [%s]!!", name);
                 rc = RBUS_ERROR_OUT_OF_RESOURCES;
-            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_regMutex));
                 break;
             }
             else
@@ -5182,7 +5194,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     if (sub->asyncHandler)
     {
         //FIXME: this should take the payload too (mrollins) because rbus_asynsubscribe is passing NULL for filter to rbus_subscribeToEvent
-        rbusAsyncSubscribe_AddSubscription(sub, payload);
+        rbusAsyncSubscribe_AddSubscription(sub, payload, timeout > 0 ? destNotFoundTimeout : rbusHandle_FetchSubscribeTimeout(handle));
 
         rbusMessage_Release(payload);
         return RBUS_ERROR_SUCCESS;
@@ -5881,6 +5893,7 @@ rbusError_t rbusEvent_UnsubscribeEx(
         return RBUS_ERROR_INVALID_HANDLE;
 
     int i;
+    bool removed = false;
 
     //TODO we will call unsubscribe for every sub in list
     //if any unsubscribe fails below we use RBUS_ERROR_BUS_ERROR for return error
@@ -5917,9 +5930,12 @@ rbusError_t rbusEvent_UnsubscribeEx(
         else
         {
             errorcode = _rbus_AsyncSubscribe_remove_subscription(handle, &subscription[i]);
+            removed = true;
         }
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
     }
+    if(removed)
+        rbusAsyncSubscribe_WaitRemoved(handle);
     return errorcode;
 }
 
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 48d0b75..d9a9b12 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -50,21 +50,27 @@ typedef struct AsyncSubscribeRetrier_t
 {
     rtList items;
     pthread_cond_t condItemAdded;
+    pthread_cond_t condItemDone;
     pthread_mutex_t mutexQueue;
     int isRunning;
     pthread_t threadId;
+    struct AsyncSubscription_t* current; /*the item the thread works on with mutexQueue unlocked*/
+    rbusHandle_t currentHandle; /*and its handle*/
 } AsyncSubscribeRetrier_t;
 
 typedef struct AsyncSubscription_t
 {
     rbusEventSubscription_t* subscription;
     rbusMessage payload;
+    uint32_t timeout; /*miliseconds*/
+    bool removed; /*removed from the list, by another thread, while it was being worked on*/
     int nextWaitTime;
     rtTime_t startTime;
     rtTime_t nextRetryTime;
 } AsyncSubscription_t;
 
 static AsyncSubscribeRetrier_t* gRetrier = NULL;
+static pthread_mutex_t gRetrierCreateMutex = PTHREAD_MUTEX_INITIALIZER;
 
 static void rbusAsyncSubscribeRetrier_FreeSubscription(void *pitem)
 {
@@ -155,119 +161,201 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
     return 0;//meaning there's nothing past due currently
 }
 
-static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
+/*remove all items which match, or only the first one.  The item being worked on is left to the thread to free*/
+static int rbusAsyncSubscribeRetrier_RemoveItems(const void* comparison, rtList_Compare compare, bool all)
 {
     rtListItem li;
-    rtTime_t now;
+    int count = 0;
 
-    RBUSLOG_DEBUG("%s enter", __FUNCTION__);
+    rtList_GetFront(gRetrier->items, &li);
 
-    rtTime_Now(&now);
+    while(li && (all || count == 0))
+    {
+        AsyncSubscription_t* item = NULL;
+        rtListItem next = NULL;
+
+        rtListItem_GetData(li, (void**)&item);
+        rtListItem_GetNext(li, &next);
+
+        if(compare(item, comparison) == 0)
+        {
+            count++;
+            if(item == gRetrier->current)
+            {
+                item->removed = true;
+                rtListItem_SetData(li, NULL);
+                rtList_RemoveItem(gRetrier->items, li, NULL);
+            }
+            else
+            {
+                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+            }
+        }
+        li = next;
+    }
+
+    return count;
+}
+
+static AsyncSubscription_t* rbusAsyncSubscribeRetrier_FindDue(rtTime_t* now)
+{
+    rtListItem li;
 
     rtList_GetFront(gRetrier->items, &li);
 
     while(li)
     {
         AsyncSubscription_t* item = NULL;
-
         rtListItem_GetData(li, (void**)&item);
+        if(rtTime_Compare(&item->nextRetryTime, now) <= 0)
+            return item;
+        rtListItem_GetNext(li, &li);
+    }
+    return NULL;
+}
 
-        if(rtTime_Compare(&item->nextRetryTime, &now) <= 0)
-        {
-            rbusCoreError_t coreerr;
-            uint32_t elapsed;
-            int providerError;
-            rbusMessage response = NULL;
-            uint32_t subscriptionId = 0;
+/*mutexQueue must be locked.  It is unlocked while requests are sent and while callbacks run*/
+static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
+{
+    rtTime_t due;
+    rtTime_t now;
+    AsyncSubscription_t* item = NULL;
+
+    RBUSLOG_DEBUG("%s enter", __FUNCTION__);
+
+    rtTime_Now(&due);
+
+    while(gRetrier->isRunning && (item = rbusAsyncSubscribeRetrier_FindDue(&due)) != NULL)
+    {
+        rbusCoreError_t coreerr;
+        uint32_t elapsed;
+        int providerError = RBUS_ERROR_SUCCESS;
+        rbusMessage response = NULL;
+        uint32_t subscriptionId = 0;
+        bool removed;
 
+        gRetrier->current = item;
+        gRetrier->currentHandle = item->subscription->handle;
+        UNLOCK();
 
-            RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
+        RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
 
-            coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
-                        _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
+        coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
+                    _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
 
-            rtTime_Now(&now);
+        rtTime_Now(&now);
 
-            elapsed = rtTime_Elapsed(&item->startTime, &now);
+        elapsed = rtTime_Elapsed(&item->startTime, &now);
 
-            if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
-             elapsed < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))    /*if we haven't timeout out yet*/
+        if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
+         elapsed < item->timeout)    /*if we haven't timeout out yet*/
+        {
+            LOCK();
+
+            if(item->nextWaitTime == 0)
+                item->nextWaitTime = 1000; //miliseconds
+            else
+                item->nextWaitTime *= 2;//just double the time
+
+            //apply a limit to our doubling
+            if(item->nextWaitTime > RBUS_SUBSCRIBE_MAXWAIT)
+              item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
+
+            //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding the timeout
+            if(elapsed + item->nextWaitTime < item->timeout)
             {
-                if(item->nextWaitTime == 0)
-                    item->nextWaitTime = 1000; //miliseconds
-                else
-                    item->nextWaitTime *= 2;//just double the time
+                rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
+            }
+            else
+            {
+                //its possible to have the odd situation, based on how timeout/subscribeMaxWait are configured,
+                //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
+                rtTime_Later(&item->startTime, item->timeout, &item->nextRetryTime);
+            }
 
-                //apply a limit to our doubling
-                if(item->nextWaitTime > RBUS_SUBSCRIBE_MAXWAIT)
-                  item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
+            RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
+                item->subscription->eventName,
+                rtTime_Elapsed(&now, &item->nextRetryTime),
+                item->timeout - elapsed);
 
-                //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding subscribeTimeout
-                if(elapsed + item->nextWaitTime < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))
-                {
-                    rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
-                }
-                else
-                {
-                    //its possible to have the odd situation, based on how subscribeTimeout/subscribeMaxWait are configured, 
-                    //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
-                    rtTime_Later(&item->startTime, rbusHandle_FetchSubscribeTimeout(item->subscription->handle), &item->nextRetryTime);
-                }
+            if(item->removed)
+                rbusAsyncSubscribeRetrier_FreeSubscription(item);
+        }
+        else
+        {
+            rbusError_t responseErr;
+            rbusHandle_t handle = item->subscription->handle;
 
-                RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
-                    item->subscription->eventName, 
-                    rtTime_Elapsed(&now, &item->nextRetryTime), 
-                    rbusHandle_FetchSubscribeTimeout(item->subscription->handle)- elapsed );
+            if(coreerr == RBUSCORE_SUCCESS)
+            {
+                if(response)
+                    rbusMessage_GetUInt32(response, &subscriptionId);
+                RBUSLOG_INFO("%s subscribe retries succeeded", item->subscription->eventName);
+                responseErr = RBUS_ERROR_SUCCESS;
+            }
+            else if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
+            {
+                RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
+                RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
+                responseErr = RBUS_ERROR_TIMEOUT;
+            }
+            else if(providerError != RBUS_ERROR_SUCCESS)
+            {
+                RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
+                RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
+                responseErr = providerError;
             }
             else
             {
-                rbusError_t responseErr;
-                rtListItem tmp;
+                RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
+                responseErr = RBUS_ERROR_BUS_ERROR;
+            }
+            if(response)
+                rbusMessage_Release(response);
 
-                if(coreerr == RBUSCORE_SUCCESS)
-                {
-                    if(response)
-                        rbusMessage_GetUInt32(response, &subscriptionId);
-                    RBUSLOG_INFO("%s subscribe retries succeeded", item->subscription->eventName);
-                    responseErr = RBUS_ERROR_SUCCESS;
-                    if(response)
-                        rbusMessage_Release(response);
-                }
-                else
+            /*The subscription must always be found either here or among the established ones.
+              The handle stays valid because rbusAsyncSubscribe_CloseHandle waits for the current item*/
+            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+            LOCK();
+            removed = item->removed;
+            if(!removed)
+            {
+                rtListItem li;
+                rtList_GetFront(gRetrier->items, &li);
+                while(li)
                 {
-                    if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
-                    {
-                        RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
-                        responseErr = RBUS_ERROR_TIMEOUT;
-                    }
-                    else if(providerError != RBUS_ERROR_SUCCESS)
+                    AsyncSubscription_t* data = NULL;
+                    rtListItem_GetData(li, (void**)&data);
+                    if(data == item)
                     {
-                        RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
-                        responseErr = providerError;
-                    }
-                    else
-                    {  
-                        RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
-                        responseErr = RBUS_ERROR_BUS_ERROR;
+                        rtListItem_SetData(li, NULL);
+                        rtList_RemoveItem(gRetrier->items, li, NULL);
+                        break;
                     }
-                    if(response)
-                        rbusMessage_Release(response);
+                    rtListItem_GetNext(li, &li);
                 }
+            }
+            UNLOCK();
 
-                _subscribe_async_callback_handler(item->subscription->handle, item->subscription, responseErr, subscriptionId);
-                //store the next item, because we are removing this li item from list
-                LOCK();
+            if(!removed)
+            {
+                rbusEventSubscription_t* subscription = item->subscription;
                 item->subscription = NULL;
-                rtListItem_GetNext(li, &tmp); 
-                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
-                UNLOCK();
-                li = tmp;
-                continue;//li is already the next item so avoid GetNext below
+                /*this unlocks the mutex of the handle*/
+                _subscribe_async_callback_handler(handle, subscription, responseErr, subscriptionId);
             }
+            else
+            {
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                if(coreerr == RBUSCORE_SUCCESS)
+                    rbus_unsubscribeFromEvent(NULL, item->subscription->eventName, item->payload, false);
+            }
+
+            LOCK();
+            rbusAsyncSubscribeRetrier_FreeSubscription(item);
         }
-        rtListItem_GetNext(li, &li);    
+        gRetrier->current = NULL;
+        ERROR_CHECK(pthread_cond_broadcast(&gRetrier->condItemDone));
     }
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
@@ -282,9 +370,9 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
 
         while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(&nextSendTime))
         {
-            UNLOCK();
+            if(!gRetrier->isRunning)
+                break;
             rbusAsyncSubscribeRetrier_SendSubscriptionRequests();
-            LOCK();
         }
 
         if(gRetrier->isRunning)
@@ -322,6 +410,7 @@ static void rbusAsyncSubscribeRetrier_Create()
     gRetrier = rt_malloc(sizeof(struct AsyncSubscribeRetrier_t));
 
     gRetrier->isRunning = true;
+    gRetrier->current = NULL;
     rtList_Create(&gRetrier->items);
 
     ERROR_CHECK(pthread_mutexattr_init(&mattrib));
@@ -332,6 +421,7 @@ static void rbusAsyncSubscribeRetrier_Create()
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gRetrier->condItemAdded, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&gRetrier->condItemDone, NULL));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 
     ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, NULL));
@@ -353,6 +443,7 @@ static void rbusAsyncSubscribeRetrier_Destroy()
 
     ERROR_CHECK(pthread_mutex_destroy(&gRetrier->mutexQueue));
     ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemAdded));
+    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemDone));
     rtList_Destroy(gRetrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
 
     free(gRetrier);
@@ -361,16 +452,18 @@ static void rbusAsyncSubscribeRetrier_Destroy()
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload)
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout)
 {
     int rc;
     char tbuff[50];
     VERIFY_NULL(subscription);
 
+    ERROR_CHECK(pthread_mutex_lock(&gRetrierCreateMutex));
     if(!gRetrier)
     {
         rbusAsyncSubscribeRetrier_Create();
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gRetrierCreateMutex));
 
     AsyncSubscription_t* item = rt_malloc(sizeof(struct AsyncSubscription_t));
 
@@ -378,6 +471,8 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
 
     item->subscription = subscription;
     item->payload = payload;
+    item->timeout = timeout;
+    item->removed = false;
     item->nextWaitTime = 0;
 
     rtTime_Now(&item->startTime);
@@ -396,19 +491,28 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
 
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription)
 {
-    rtError err = RT_OK;
     bool sub_removed = false;
     if(!gRetrier || subscription == NULL)
         return false;
     LOCK();
-    err = rtList_RemoveItemByCompare(gRetrier->items, subscription,
-        rbusAsyncSubscribeRetrier_CompareSubscription, rbusAsyncSubscribeRetrier_FreeSubscription);
-    if(err == RT_OK)
+    if(rbusAsyncSubscribeRetrier_RemoveItems(subscription, rbusAsyncSubscribeRetrier_CompareSubscription, false) > 0)
         sub_removed = true;
     UNLOCK();
     return sub_removed;
 }
 
+void rbusAsyncSubscribe_WaitRemoved(rbusHandle_t handle)
+{
+    if(!gRetrier || pthread_equal(pthread_self(), gRetrier->threadId))
+        return;
+    LOCK();
+    while(gRetrier->current && gRetrier->current->removed && gRetrier->currentHandle == handle)
+    {
+        ERROR_CHECK(pthread_cond_wait(&gRetrier->condItemDone, &gRetrier->mutexQueue));
+    }
+    UNLOCK();
+}
+
 bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter)
 {
     rbusEventSubscription_t sub = {0};
@@ -434,7 +538,7 @@ bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventNa
 
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 {
-    size_t size1, size;
+    int count;
 
     if(!gRetrier)
         return;
@@ -443,22 +547,29 @@ void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 
     LOCK();
 
-    rtList_GetSize(gRetrier->items, &size1);
-
     //remove all items with this handle
-    rtList_RemoveItemByCompare(gRetrier->items, handle, 
-                             rbusAsyncSubscribeRetrier_CompareHandle, rbusAsyncSubscribeRetrier_FreeSubscription);
+    count = rbusAsyncSubscribeRetrier_RemoveItems(handle, rbusAsyncSubscribeRetrier_CompareHandle, true);
 
-    //if list is empty, we can destruct
-    rtList_GetSize(gRetrier->items, &size);
+    //the one being worked on, and its callback, use the handle
+    if(!pthread_equal(pthread_self(), gRetrier->threadId))
+    {
+        while(gRetrier->current && gRetrier->currentHandle == handle)
+        {
+            ERROR_CHECK(pthread_cond_wait(&gRetrier->condItemDone, &gRetrier->mutexQueue));
+        }
+    }
 
     UNLOCK();
 
-    RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", (int)(size1-size), (int)size);
+    (void)count;
+    RBUSLOG_INFO("removed %d pending async subscriptions.", count);
+}
 
-    if(size == 0)
-    {
-        RBUSLOG_INFO("all handles removed");
-        rbusAsyncSubscribeRetrier_Destroy();
-    }
+void rbusAsyncSubscribe_Destroy()
+{
+    if(!gRetrier || pthread_equal(pthread_self(), gRetrier->threadId))
+        return;
+
+    RBUSLOG_INFO("all handles removed");
+    rbusAsyncSubscribeRetrier_Destroy();
 }
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 4df56a2..80ef5f1 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -25,10 +25,12 @@
 #ifdef __cplusplus
 extern "C" {
 #endif
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
 bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter);
+void rbusAsyncSubscribe_WaitRemoved(rbusHandle_t handle);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
+void rbusAsyncSubscribe_Destroy();
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 7d9d307b0abfe2e98fa9a063731c82c21045b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 44/49] fix: the thread pool exceeded its limit, forgot tasks
 and could be freed while used

Threads are counted when they are created and not when they get to run, so that the limit holds meanwhile. A thread
whose time expires looks at the queue once more, and a task is given its own thread when the idle ones already have
one coming each. Destroying the pool also waits for queued tasks and frees it exactly once. A thread that cannot be
created does not leave a dead task or a dead thread behind, and the elapsed time no longer mixes up nanoseconds.
---
 src/rtmessage/rtThreadPool.c | 57 +++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 8a9785a..292279d 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -24,6 +24,7 @@
 #include "rtMemory.h"
 #include <pthread.h>
 #include <stdlib.h>
+#include <string.h>
 #include <time.h>
 #include <errno.h>
 
@@ -68,14 +69,9 @@ void rtThreadPool_CleanupThread(void* data)
   rtLog_Debug("%s exit", __FUNCTION__);
 }
 
-void rtThreadPool_TryRealDestroy(rtThreadPool pool)
+/*called without the lock, by the one thread that found nobody else left: rtThreadPool_Destroy or the last worker*/
+static void rtThreadPool_RealDestroy(rtThreadPool pool)
 {
-  int shouldDestroy;
-  pthread_mutex_lock(&pool->poolLock);
-  shouldDestroy = pool->threadCount == 0 && pool->isShutdown == 1;
-  pthread_mutex_unlock(&pool->poolLock);
-  if(!shouldDestroy)
-    return;
   rtLog_Debug("%s enter", __FUNCTION__);
   rtList_Destroy(pool->threadList, rtThreadPool_CleanupThread);
   rtList_Destroy(pool->taskList, rtList_Cleanup_Free);
@@ -86,6 +82,13 @@ void rtThreadPool_TryRealDestroy(rtThreadPool pool)
   rtLog_Debug("%s exit", __FUNCTION__);
 }
 
+static size_t rtThreadPool_QueuedTasks(rtThreadPool pool)
+{
+  size_t size;
+  rtList_GetSize(pool->taskList, &size);
+  return size;
+}
+
 int rtThread_DequeTask(rtThread thread)
 {
   rtListItem item = NULL;
@@ -117,8 +120,8 @@ void* rtThread_WorkerThreadFunc(void* data)
   rtLog_Debug("%s enter", __FUNCTION__);
   rtThread thread = (rtThread)data;
   rtThreadPool pool = thread->pool;
+  int shouldDestroy;
   pthread_mutex_lock(&pool->poolLock);
-  pool->threadCount++;
   while(pool->isRunning)
   {
     while(pool->isRunning && rtThread_DequeTask(thread))
@@ -139,7 +142,8 @@ void* rtThread_WorkerThreadFunc(void* data)
       rtLog_Debug("%s pthread_cond_wait before", __FUNCTION__);
       rc = pthread_cond_timedwait(&pool->taskCond, &pool->poolLock, &expireTime);
       rtLog_Debug("%s pthread_cond_wait after rc=%d", __FUNCTION__, rc);
-      if(rc == ETIMEDOUT)
+      //a task can have come after the time expired, while this thread waited for the lock
+      if(rc == ETIMEDOUT && rtThreadPool_QueuedTasks(pool) == 0)
       { 
         rtLog_Debug("%s thread expired", __FUNCTION__);
         break;
@@ -148,8 +152,10 @@ void* rtThread_WorkerThreadFunc(void* data)
   }
   pool->threadCount--;
   rtList_RemoveItemWithData(pool->threadList, thread, rtThreadPool_CleanupThread);
+  shouldDestroy = pool->threadCount == 0 && pool->isShutdown == 1;
   pthread_mutex_unlock(&pool->poolLock);
-  rtThreadPool_TryRealDestroy(pool);
+  if(shouldDestroy)
+    rtThreadPool_RealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return NULL;
 }
@@ -158,6 +164,7 @@ rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
 {
   rtThread thread;
   pthread_attr_t attr;
+  int err;
   rtLog_Debug("%s enter", __FUNCTION__);
   thread = rt_try_malloc(sizeof(struct _rtThread));
   if(!thread)
@@ -166,9 +173,17 @@ rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
   pthread_attr_init(&attr);
   if(pool->stackSize > 0)
     pthread_attr_setstacksize(&attr, pool->stackSize);
-  pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
+  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);//nobody joins it
+  err = pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
   pthread_attr_destroy(&attr);
+  if(err != 0)
+  {
+    rtLog_Error("%s failed to create thread: %s", __FUNCTION__, strerror(err));
+    free(thread);
+    return rtErrorFromErrno(err);
+  }
   rtList_PushBack(pool->threadList, thread, NULL);
+  pool->threadCount++;//here and not when the thread gets to run, so that the limit holds meanwhile
   rtLog_Debug("%s exit", __FUNCTION__);
   return RT_OK;
 }
@@ -229,7 +244,7 @@ int timeGetElapsed(struct timespec* startTime)
   else
   {
     ms = (now.tv_sec - startTime->tv_sec - 1) * 1000 +
-        (1000000000 + now.tv_nsec - startTime->tv_nsec);
+        (1000000000 + now.tv_nsec - startTime->tv_nsec) / 1000000;
   }
   return ms;
 }
@@ -242,13 +257,13 @@ rtError rtThreadPool_StopAllThread(rtThreadPool pool, int waitTimeMS)
   if(waitTimeMS < 0)
   {
     //wait for all tasks to complete
-    while(pool->busyThreadCount > 0)
+    while(pool->busyThreadCount > 0 || rtThreadPool_QueuedTasks(pool) > 0)
       pthread_cond_wait(&pool->idleCond, &pool->poolLock);
   }
   else //waitTimeMS > 0
   {
     int waitRemainingMS = waitTimeMS;
-    while(waitRemainingMS > 0 && pool->busyThreadCount > 0)
+    while(waitRemainingMS > 0 && (pool->busyThreadCount > 0 || rtThreadPool_QueuedTasks(pool) > 0))
     {
       struct timespec startTime, endTime;
       clock_gettime(CLOCK_REALTIME, &startTime);
@@ -280,12 +295,15 @@ rtError rtThreadPool_StopAllThread(rtThreadPool pool, int waitTimeMS)
 rtError rtThreadPool_Destroy(rtThreadPool pool, int waitTimeMS)
 {
   rtError err;
+  int shouldDestroy;
   rtLog_Debug("%s enter", __FUNCTION__);
   err = rtThreadPool_StopAllThread(pool, waitTimeMS);
   pthread_mutex_lock(&pool->poolLock);
   pool->isShutdown = 1;
+  shouldDestroy = pool->threadCount == 0;//otherwise the last worker does it
   pthread_mutex_unlock(&pool->poolLock);
-  rtThreadPool_TryRealDestroy(pool);
+  if(shouldDestroy)
+    rtThreadPool_RealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return err;
 }
@@ -305,6 +323,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     task = rt_try_malloc(sizeof(struct _rtThreadTask));
     if(!task)
     {
+        rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return rtErrorFromErrno(ENOMEM);
     }
@@ -314,7 +333,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   task->func = func;
   task->userData = userData;
   //find and existing thread to handle the task
-  if(pool->busyThreadCount < pool->threadCount)
+  if(pool->busyThreadCount + rtThreadPool_QueuedTasks(pool) <= pool->threadCount)
   {
     rtLog_Debug("%s pthread_cond_signal before", __FUNCTION__);
     pthread_cond_signal(&pool->taskCond);
@@ -325,10 +344,14 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     rtLog_Debug("%s creating new thread", __FUNCTION__);
     if((err = rtThreadPool_CreateWorkerThread(pool)) != RT_OK)
     {
+        if(pool->threadCount > 0)
+          err = RT_ERROR_THREADPOOL_TASK_PENDING;//the threads there are will get to it
+        else
+          rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return err;
     }
-    if(pool->threadCount == pool->maxThreadCount - 1)
+    if(pool->threadCount == pool->maxThreadCount)
       rtLog_Debug("%s reached max thread count %zu", __FUNCTION__, pool->maxThreadCount);
   }
   else
-- 
2.43.0


From b8b9a4bb034d7bf6b7df1e3307667a40ec02a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 45/49] fix: a raw data event used its subscription after that
 was freed

The subscription is looked for by its address before it is used, and the handler gets a copy, because the subscription
can be unsubscribed, and freed, by another thread meanwhile. When a direct connection is closed, the raw data listener
is added again for the handle that subscribed and not for the direct handle, which is freed.
---
 src/rbus/rbus.c | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index edfdef0..738e624 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -387,7 +387,7 @@ rbusError_t rbusCloseDirect_SubRemove(rbusHandle_t handle, rtVector eventSubs, c
         if(subInternal && !strcmp(subInternal->sub->eventName, eventName) && subInternal->rawData)
         {
             snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%s", subInternal->sub->eventName);
-            errorcode = rbusMessage_RemovePrivateListener(handle, rawDataTopic, subInternal->subscriptionId);
+            errorcode = rbusMessage_RemovePrivateListener(subInternal->sub->handle, rawDataTopic, subInternal->subscriptionId);
             if (errorcode != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_WARN("rbusMessage_RemovePrivateListener failed err:%d", errorcode);
@@ -395,7 +395,8 @@ rbusError_t rbusCloseDirect_SubRemove(rbusHandle_t handle, rtVector eventSubs, c
             handle->m_connection = handle->m_connectionParent; /* changed the handle m_connection of direct connection to use normal m_connection and used the same to add the rawdatatopic for normal connection*/
             memset(rawDataTopic, '\0', strlen(rawDataTopic));
             snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
-            errorcode = rbusMessage_AddListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+            /*for the handle that subscribed, which outlives the direct one*/
+            errorcode = rbusMessage_AddListener(subInternal->sub->handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
             if(errorcode != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_ERROR("rbusMessage_AddListener failed err: %d", errorcode);
@@ -5348,6 +5349,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
 static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg, void * userData)
 {
     rbusEventRawData_t event = {0};
+    rbusEventSubscription_t copy = {0};
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     event.name = msg->topic;
@@ -5360,9 +5362,22 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
         if (ptmp)
         {
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            rbusEventSubscriptionInternal_t *subInternal = rbusEventSubscription_find(handleInfo->eventSubs,
-                    ptmp->eventName, ptmp->filter, ptmp->interval, ptmp->duration, true);
-            if (subInternal && subInternal->dirty)
+            rbusEventSubscriptionInternal_t *subInternal = NULL;
+            size_t i;
+            for(i = 0; i < rtVector_Size(handleInfo->eventSubs); ++i)
+            {
+                subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(handleInfo->eventSubs, i);
+                if(subInternal && subInternal->sub == ptmp && subInternal->rawData)
+                    break;
+                subInternal = NULL;
+            }
+            if (!subInternal)
+            {
+                /*it was unsubscribed, and freed, meanwhile*/
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                return;
+            }
+            if (subInternal->dirty)
             {
                 errorcode =  _rbus_event_unsubscribe(handle, subInternal);
                 if(errorcode == RBUS_ERROR_DESTINATION_NOT_FOUND)
@@ -5385,13 +5400,21 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
                     return;
                 }
             }
+            /*it can be unsubscribed, and freed, from now on*/
+            copy = *ptmp;
+            copy.eventName = strdup(copy.eventName);
+            if(copy.filter)
+                rbusFilter_Retain(copy.filter);
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         }
-        rbusEventHandlerRawData_t eventHandlerFuncPtr = ptmp->handler;
+        rbusEventHandlerRawData_t eventHandlerFuncPtr = (rbusEventHandlerRawData_t)copy.handler;
         if(eventHandlerFuncPtr)
-            (eventHandlerFuncPtr)(handle, &event, ptmp);
+            (eventHandlerFuncPtr)(handle, &event, &copy);
         else
             RBUSLOG_WARN("eventHandlerFuncPtr is NULL");
+        if(copy.filter)
+            rbusFilter_Release(copy.filter);
+        free((void*)copy.eventName);
     }
 }
 
-- 
2.43.0


From 240d18a6e47b1638094bf8704d4d5d6b2e2d8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 46/49] fix: a message could be given to a listener that was
 freed or whose handle was closed

The callback gets the listener's key and looks for it, instead of using memory that another thread can have freed by
removing the listener. Closing a handle waits for its message handlers as it does for its event handlers.
---
 src/rbus/rbus_message.c | 55 +++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index f567ce5..d7bf12a 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -45,7 +45,7 @@
 
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
 
-typedef struct
+typedef struct _rbusMessageHandlerContext
 {
     rbusHandle_t          handle;
     char*                 expression;
@@ -55,6 +55,9 @@ typedef struct
     uint32_t              subscriptionId;
     uint32_t              listenerId;
     bool                  isPrivate;
+    int32_t               componentId;
+    uintptr_t             key;
+    struct _rbusMessageHandlerContext* next;
 } rbusMessageHandlerContext_t;
 
 /* The ids which callers pass are chosen by each provider (or user), hence not unique within this
@@ -77,11 +80,41 @@ rbusError_t rtError_to_rBusError(rtError e)
     return err;
 }
 
+/* All contexts, to be used with gMutex locked. The callback gets a context's key and not its address because the
+ * context can be freed between the moment when the connection found the listener and its callback. */
+static rbusMessageHandlerContext_t* gContexts = NULL;
+static uintptr_t gNextKey = 1;
+
+static void addContext(rbusMessageHandlerContext_t* ctx)
+{
+    ctx->key = gNextKey++;
+    ctx->next = gContexts;
+    gContexts = ctx;
+    rtVector_PushBack(ctx->handle->messageCallbacks, ctx);
+}
+
 static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const* buff, uint32_t n, void* userData)
 {
-    rbusMessageHandlerContext_t* ctx = (rbusMessageHandlerContext_t*)userData;
-    if((!ctx)||(!hdr))
+    rbusMessageHandlerContext_t* ctx;
+    rbusMessageHandlerContext_t copy;
+    struct _rbusHandle* handleInfo;
+    if((!userData)||(!hdr))
+        return;
+
+    RBUS_MESSAGE_MUTEX_LOCK();
+    for (ctx = gContexts; ctx && ctx->key != (uintptr_t)userData; ctx = ctx->next);
+    if (ctx)
+        copy = *ctx;
+    RBUS_MESSAGE_MUTEX_UNLOCK();
+    if (!ctx)
         return;
+    ctx = &copy;
+
+    /* rbus_close waits until the handle is released; the handle of a direct connection has no component id */
+    handleInfo = ctx->componentId ? rbusHandleList_AcquireByComponentID(ctx->componentId) : NULL;
+    if (ctx->componentId && !handleInfo)
+        return;
+
     // if this is request, the sender wants confirmation of receipt
     // do that before dispatching application callback
     if (rtMessageHeader_IsRequest(hdr))
@@ -105,12 +138,18 @@ static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const*
 
         ctx->handler(ctx->handle, &message, ctx->userData);
     }
+    if (handleInfo)
+        rbusHandleList_Release(handleInfo);
 }
 
 static void cleanupContext(void * p)
 {
     rbusMessageHandlerContext_t* ctx = (rbusMessageHandlerContext_t*)p;
     if(ctx){
+        rbusMessageHandlerContext_t** at;
+        for (at = &gContexts; *at && *at != ctx; at = &(*at)->next);
+        if (*at)
+            *at = ctx->next;
         if(ctx->expression)
             free(ctx->expression);
         free(ctx);
@@ -150,6 +189,7 @@ rbusError_t rbusMessage_AddPrivateListener(
 
     rbusMessageHandlerContext_t* ctx = rt_malloc(sizeof(rbusMessageHandlerContext_t));
     ctx->handle = handle;
+    ctx->componentId = ((struct _rbusHandle*)handle)->componentId;
     ctx->expression = strdup(expression);
     ctx->handler = handler;
     ctx->userData = userData;
@@ -158,10 +198,10 @@ rbusError_t rbusMessage_AddPrivateListener(
     ctx->listenerId = subscriptionId;
     ctx->isPrivate = true;
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_PushBack(handle->messageCallbacks, ctx);
+    addContext(ctx);
 
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
-    rtError e = rtConnection_AddListenerWithId(myConn, rawDataTopic, ctx->listenerId, &rtMessage_CallbackHandler, ctx);
+    rtError e = rtConnection_AddListenerWithId(myConn, rawDataTopic, ctx->listenerId, &rtMessage_CallbackHandler, (void*)ctx->key);
     if (e != RT_OK)
         rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
@@ -187,6 +227,7 @@ rbusError_t rbusMessage_AddListener(
 
     rbusMessageHandlerContext_t* ctx = rt_malloc(sizeof(rbusMessageHandlerContext_t));
     ctx->handle = handle;
+    ctx->componentId = ((struct _rbusHandle*)handle)->componentId;
     ctx->expression = strdup(expression);
     ctx->handler = handler;
     ctx->userData = userData;
@@ -195,9 +236,9 @@ rbusError_t rbusMessage_AddListener(
     ctx->isPrivate = false;
     RBUS_MESSAGE_MUTEX_LOCK();
     ctx->listenerId = gNextListenerId++;
-    rtVector_PushBack(handle->messageCallbacks, ctx);
+    addContext(ctx);
 
-    rtError e = rtConnection_AddListenerWithId(con, expression, ctx->listenerId, &rtMessage_CallbackHandler, ctx);
+    rtError e = rtConnection_AddListenerWithId(con, expression, ctx->listenerId, &rtMessage_CallbackHandler, (void*)ctx->key);
     if (e != RT_OK)
         rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
-- 
2.43.0


From 79908f75b607eea9e6a4fd86cda04d534ba9d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:39 +0000
Subject: [PATCH 47/49] fix: a request whose time was up was removed from the
 pending list without its lock

The list is shared with the reader thread, which completes its entries under the lock. A second
response to a request replaced the first, a wait could end without a post, and destroying a
connection with requests under way freed the list they still used.
---
 src/rtmessage/rtConnection.c | 28 +++++++++++++++++++++-------
 src/rtmessage/rtSemaphore.c  | 14 ++++++++------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 154f9f9..924a158 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -743,15 +743,22 @@ rtConnection_Destroy(rtConnection con)
       found_pending_requests = 1;
       rtSemaphore_Post(entry->sem);
     }
-    rtList_Destroy(con->pending_requests_list,NULL);
-    rtList_Destroy(con->callback_message_list, rtMessageInfo_ListItemFree);
     pthread_mutex_unlock(&con->mutex);
     if(0 != found_pending_requests)
     {
       rtLog_Error("Warning! Found pending requests while destroying connection.");
-      sleep(1); /* ugly hack to allow all sendRequest() calls to return and stop using con->* data members. Hopefully, this will never be 
-      executed in practice. Revisit if necessary. */
+      /* Each sendRequest() removes its entry from the list when it ends, so the list must outlive them. */
+      size_t pending;
+      do
+      {
+        usleep(10000);
+        pthread_mutex_lock(&con->mutex);
+        rtList_GetSize(con->pending_requests_list, &pending);
+        pthread_mutex_unlock(&con->mutex);
+      } while(0 != pending);
     }
+    rtList_Destroy(con->pending_requests_list,NULL);
+    rtList_Destroy(con->callback_message_list, rtMessageInfo_ListItemFree);
 
     pthread_mutex_destroy(&con->mutex);
     pthread_mutex_destroy(&con->callback_message_mutex);
@@ -1066,7 +1073,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         else if(err == RT_NO_CONNECTION)
         {
           ret = err;
-          goto dequeue_and_continue;
+          break;
         }
         else
         {
@@ -1076,11 +1083,16 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         }
       } while(RT_OK == err);
     }
+
+    /*The reader thread uses the list and completes its entries with the mutex locked, so whatever the reason why
+      the wait ended, the entry must be looked at and removed with the mutex locked*/
+    pthread_mutex_lock(&con->mutex);
+    if(RT_ERROR_TIMEOUT == ret && queue_entry.response)
+      ret = RT_OK; /*it came after the wait ended*/
+
     if(RT_OK == ret)
     {
       /*Sem posted*/
-      pthread_mutex_lock(&con->mutex);
-
       if(queue_entry.response)
       {
         if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
@@ -1635,6 +1647,8 @@ rtConnection_Read(rtConnection con, int32_t timeout)
         rtListItem_GetData(listItem, (void**)&entry);
         if(entry->sequence_number == msginfo->header.sequence_number)
         {
+          if(entry->response)
+            break; /*has been answered already*/
           entry->response = msginfo;
           msginfo = NULL; /*rtConnection_SendRequest thread will release it*/
           rtSemaphore_Post(entry->sem);
diff --git a/src/rtmessage/rtSemaphore.c b/src/rtmessage/rtSemaphore.c
index 45d64d4..a218cd9 100644
--- a/src/rtmessage/rtSemaphore.c
+++ b/src/rtmessage/rtSemaphore.c
@@ -106,14 +106,16 @@ rtError rtSemaphore_TimedWait(rtSemaphore sem, struct timespec* t)
     ERROR_CHECK(pthread_mutex_unlock(&sem->m));
     return RT_OK;
   }
-  if(t)
-    err = pthread_cond_timedwait(&sem->c, &sem->m, t);
-  else
-    err = pthread_cond_wait(&sem->c, &sem->m);
+  do /* a wait can end without a post */
+  {
+    if(t)
+      err = pthread_cond_timedwait(&sem->c, &sem->m, t);
+    else
+      err = pthread_cond_wait(&sem->c, &sem->m);
+  } while(err == 0 && sem->v == 0);
   if(err == 0)
   {
-    if(sem->v > 0)
-      sem->v--;
+    sem->v--;
   }
   else
   {
-- 
2.43.0


From f3c761ca029fa93753d21e88d8527f71ebbd99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:57 +0000
Subject: [PATCH 48/49] fix: a thread that lost the connection could replace
 one that had just been made anew

Whether somebody else had reconnected already was told by comparing times which all senders shared,
so a new connection was closed under the reader thread, which then never read again. Connections are
counted instead; the lost socket stays open until the reader thread has left it, and listeners are
added back with the mutex held, so none is freed, added or removed meanwhile, and a connection lost
again at that moment no longer makes the thread wait for itself.
---
 src/rtmessage/rtConnection.c | 143 ++++++++++++++++++++---------------
 1 file changed, 83 insertions(+), 60 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 924a158..c3c999f 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -121,9 +121,9 @@ struct _rtConnection
   pthread_mutex_t         callback_message_mutex;
   pthread_cond_t          callback_message_cond;
   pthread_mutex_t         reconnect_mutex;
-  rtTime_t                reader_reconnect_time;
-  rtTime_t                sender_reconnect_time;
-  rtTime_t                reconnect_time;
+  int                     read_fd;         /* what the reader thread reads from */
+  uint32_t                read_generation;
+  uint32_t                generation;      /* counts the connections made, to tell whether a lost one has been replaced */
   rtTime_t                start_time;
   int                     reconnect_in_progress;
 #ifdef WITH_SPAKE2
@@ -278,7 +278,7 @@ rtConnection_ShouldReregister(rtError e)
 }
 
 static rtError
-rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
+rtConnection_ConnectAndRegister(rtConnection con, uint32_t lost)
 {
   int i = 1;
   int ret = 0;
@@ -291,46 +291,29 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   int first_to_handle = false;
   int is_first_connect = true;
   int reconnect_in_progress = 0;
-  rtTime_t last_reconnect_time;
-  char tbuff1[100];
-  char tbuff2[100];
-  char tbuff3[100];
+  int fd;
 
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  last_reconnect_time = con->reconnect_time;
-
   if(con->fd != -1)
     is_first_connect = false;
 
-  if(is_first_connect)
-  {
-    rtLog_Debug("ConnectAndRegister creating first connection");
-    rtTime_Now(&con->reconnect_time);
-  }
-  else
+  if(!is_first_connect)
   {
     pthread_mutex_lock(&con->reconnect_mutex);
 
     reconnect_in_progress = con->reconnect_in_progress;
 
-    if(!con->reconnect_in_progress)
+    /*the connection which the caller has lost may have been replaced already*/
+    if(!con->reconnect_in_progress && con->generation == lost)
     {
-      if(rtTime_Compare(reconnect_time, &con->reconnect_time) > 0)
-      {
-        first_to_handle = true;
-        con->reconnect_in_progress = true;
-        rtTime_Now(&con->reconnect_time);
-      }
+      first_to_handle = true;
+      con->reconnect_in_progress = true;
     }
     pthread_mutex_unlock(&con->reconnect_mutex);
 
-    rtLog_Debug("ConnectAndRegister reconnect state first_to_handle=%d reconnect_in_progress=%d threads_time=[%s] last_reconnect_time=[%s] new_reconnect_time=[%s]",
-      first_to_handle, reconnect_in_progress,
-      rtTime_ToString(&con->start_time, tbuff1),
-      rtTime_ToString(&last_reconnect_time, tbuff2),
-      rtTime_ToString(&con->reconnect_time, tbuff3));
+    rtLog_Debug("ConnectAndRegister reconnect state first_to_handle=%d reconnect_in_progress=%d generation=%u", first_to_handle, reconnect_in_progress, lost);
 
     if(!first_to_handle)
     {
@@ -351,24 +334,35 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 
   rtSocketStorage_GetLength(&con->remote_endpoint, &socket_length);
 
-  if (con->fd != -1)
-    close(con->fd);
-
   rtLog_Debug("connecting to router");
-  con->fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
-  if (con->fd == -1)
-    return rtErrorFromErrno(errno);
+  fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
+  if (fd == -1)
+  {
+    ret = errno;
+    con->reconnect_in_progress = 0;
+    return rtErrorFromErrno(ret);
+  }
   rtLog_Debug("router connection up");
 
-  fdManip = fcntl(con->fd, F_GETFD);
+  fdManip = fcntl(fd, F_GETFD);
   if (fdManip < 0)
-    return rtErrorFromErrno(errno);
+  {
+    ret = errno;
+    close(fd);
+    con->reconnect_in_progress = 0;
+    return rtErrorFromErrno(ret);
+  }
 
-  fdManip = fcntl(con->fd, F_SETFD, fdManip | FD_CLOEXEC);
+  fdManip = fcntl(fd, F_SETFD, fdManip | FD_CLOEXEC);
   if (fdManip < 0)
-    return rtErrorFromErrno(errno);
+  {
+    ret = errno;
+    close(fd);
+    con->reconnect_in_progress = 0;
+    return rtErrorFromErrno(ret);
+  }
 
-  if (setsockopt(con->fd, SOL_TCP, TCP_NODELAY, &i, sizeof(i)) < 0)
+  if (setsockopt(fd, SOL_TCP, TCP_NODELAY, &i, sizeof(i)) < 0)
     rtLog_Debug("Error setting TCP_NODELAY: %s", strerror(errno));
 
   rtSocketStorage_ToString(&con->remote_endpoint, remote_addr, sizeof(remote_addr), &remote_port);
@@ -378,7 +372,7 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   while (retry < con->max_retries || con->max_retries < 0 /*unlimited retries*/)
   {
     rtLog_Debug("trying connect");
-    ret = connect(con->fd, (struct sockaddr *)&con->remote_endpoint, socket_length);
+    ret = connect(fd, (struct sockaddr *)&con->remote_endpoint, socket_length);
     if (ret == -1)
     {
       int err = errno;
@@ -405,11 +399,12 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 
   if(-1 == ret) {
     rtLog_Warn("failed to connected after %d attempts", retry);
+    close(fd);
     con->reconnect_in_progress = 0;
     return RT_NO_CONNECTION;
   }
 
-  rtSocket_GetLocalEndpoint(con->fd, &con->local_endpoint);
+  rtSocket_GetLocalEndpoint(fd, &con->local_endpoint);
 
   rtSocketStorage_ToString(&con->local_endpoint, local_addr, sizeof(local_addr), &local_port);
   rtLog_Debug("connect %s:%d -> %s:%d", local_addr, local_port, remote_addr, remote_port);
@@ -417,26 +412,39 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   /*first connect return here*/
   if(is_first_connect)
   {
+    con->fd = fd;
+    con->read_fd = fd;
     con->reconnect_in_progress = 0;
     return RT_OK;
   }
 
-  /*on reconnect, add back all listeners */
+  /*on reconnect, add back all listeners. The mutex is held so that no message is sent before and no listener changes meanwhile */
+  pthread_mutex_lock(&con->mutex);
+  shutdown(con->fd, SHUT_RDWR);
+  if (con->fd != con->read_fd) /*otherwise the reader thread may be using it and closes it*/
+    close(con->fd);
+  con->fd = fd;
+  con->generation++;
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
     if (con->listeners[i].in_use)
     {
+      uint8_t* p;
+      uint32_t n;
       rtMessage m;
       rtMessage_Create(&m);
       rtMessage_SetInt32(m, "add", 1);
       rtMessage_SetString(m, "topic", con->listeners[i].expression);
       rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id);
-      rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
+      rtMessage_ToByteArrayWithSize(m, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
+      rtConnection_SendInternal(con, p, n, "_RTROUTED.INBOX.SUBSCRIBE", NULL, 0, con->sequence_number++, 0, 0, 0);
+      rtMessage_FreeByteArray(p);
       rtMessage_Release(m);
 
       /*TODO: we need to readd all the aliases too -- would this allow rbus to recover from broker crash ?*/
     }
   }
+  pthread_mutex_unlock(&con->mutex);
 
 #ifdef WITH_SPAKE2
   /*on reconnect, rerun key exchange since broker would have lost our key if it restarted */
@@ -482,19 +490,19 @@ rtConnection_ReadUntil(rtConnection con, uint8_t* buff, int count, int32_t timeo
   {
     fd_set read_fds;
     FD_ZERO(&read_fds);
-    FD_SET(con->fd, &read_fds);
+    FD_SET(con->read_fd, &read_fds);
 
     if ((0 < timeout) && (timeout != INT32_MAX))
     {
       // TODO: include suseconds_t tv_usecs;
       time_t seconds = (timeout / 1000);
       struct timeval tv = { seconds, 0 };
-      select(con->fd + 1, &read_fds, NULL, NULL, &tv);
-      if (!FD_ISSET(con->fd, &read_fds))
+      select(con->read_fd + 1, &read_fds, NULL, NULL, &tv);
+      if (!FD_ISSET(con->read_fd, &read_fds))
         return RT_ERROR_TIMEOUT;
     }
 
-    ssize_t n = recv(con->fd, buff + bytes_read, (bytes_to_read - bytes_read), MSG_NOSIGNAL);
+    ssize_t n = recv(con->read_fd, buff + bytes_read, (bytes_to_read - bytes_read), MSG_NOSIGNAL);
     if (n == 0)
     {
       if(0 != con->run_threads)
@@ -507,7 +515,7 @@ rtConnection_ReadUntil(rtConnection con, uint8_t* buff, int count, int32_t timeo
       if (errno == EINTR)
         continue;
       rtError e = rtErrorFromErrno(errno);
-      rtLog_Error("failed to read from fd %d. %s.  errno=%d", con->fd, rtStrError(e), errno);
+      rtLog_Error("failed to read from fd %d. %s.  errno=%d", con->read_fd, rtStrError(e), errno);
       return e;
     }
     bytes_read += n;
@@ -565,6 +573,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   if(c->max_retries == 0)
     c->max_retries = 1;
   c->fd = -1;
+  c->read_fd = -1;
   rtList_Create(&c->pending_requests_list);
   rtList_Create(&c->callback_message_list);
   c->default_callback = NULL;
@@ -707,6 +716,8 @@ rtConnection_Destroy(rtConnection con)
     
     rtConnection_StopThreads(con);
     
+    if (con->read_fd != con->fd)
+      close(con->read_fd);
     if (con->fd != -1)
       close(con->fd);
     if (con->send_buffer)
@@ -785,9 +796,9 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    uint32_t generation;
     uint8_t* p;
     uint32_t n;
     rtError err;
@@ -795,6 +806,7 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
     rtMessage_ToByteArrayWithSize(msg, &p, DEFAULT_SEND_BUFFER_SIZE, &n);  /*FIXME unification is this needed ? rtMessage_FreeByteArray(p);*/
 
     pthread_mutex_lock(&con->mutex);
+    generation = con->generation;
 #ifdef C11_ATOMICS_SUPPORTED
     sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
 #else
@@ -806,7 +818,7 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, generation);
       if(err != RT_OK)
         return err;
       else
@@ -845,9 +857,9 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    uint32_t generation;
     (void)timeout;
     rtError err;
     uint8_t* p;
@@ -855,6 +867,7 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
 
     rtMessage_ToByteArrayWithSize(res, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
     pthread_mutex_lock(&con->mutex);
+    generation = con->generation;
   //TODO: should we send response on reconnect ?
     err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic, rtMessageFlags_Response, request_hdr->sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->mutex);
@@ -862,7 +875,7 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, generation);
       if(err != RT_OK)
         return err;
       else
@@ -905,9 +918,9 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    uint32_t generation;
     rtError err;
     uint32_t sequence_number;
 
@@ -918,12 +931,13 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
 #endif
 
     pthread_mutex_lock(&con->mutex);
+    generation = con->generation;
     err = rtConnection_SendInternal(con, p, n, topic, listener, rtMessageFlags_RawBinary, sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->mutex);
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, generation);
       if(err != RT_OK)
         return err;
       else
@@ -999,9 +1013,9 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 {
   if (!con)
     return rtErrorFromErrno(EINVAL);
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    uint32_t generation;
     rtError ret = RT_OK;
     uint8_t const* p = pReq;
     uint32_t n = nReq;
@@ -1012,6 +1026,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     pid_t tid = syscall(__NR_gettid);
 
     pthread_mutex_lock(&con->mutex);
+    generation = con->generation;
 #ifdef C11_ATOMICS_SUPPORTED
     sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
 #else
@@ -1122,7 +1137,7 @@ dequeue_and_continue:
 
     if(ret == RT_NO_CONNECTION)
     {
-      ret = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      ret = rtConnection_ConnectAndRegister(con, generation);
       if(ret == RT_OK)
         continue;
     }
@@ -1531,6 +1546,16 @@ rtConnection_Read(rtConnection con, int32_t timeout)
 
   // TODO: no error handling right now, all synch I/O
 
+  /*a lost connection stays open until here, so that what is left of a message is never read from its successor*/
+  pthread_mutex_lock(&con->mutex);
+  if (con->read_fd != con->fd)
+  {
+    close(con->read_fd);
+    con->read_fd = con->fd;
+  }
+  con->read_generation = con->generation;
+  pthread_mutex_unlock(&con->mutex);
+
   do
   {
     con->state = rtConnectionState_ReadHeaderPreamble;
@@ -1768,7 +1793,7 @@ void check_router(rtConnection con)
     if(x != 0)
     {
       rtLog_Info("reconnecting from reader thread \n");
-      rtConnection_ConnectAndRegister(con, &con->reader_reconnect_time);
+      rtConnection_ConnectAndRegister(con, con->read_generation);
     }
     dlclose(handle);
    }
@@ -1898,7 +1923,6 @@ static void * rtConnection_ReaderThread(void *data)
   rtLog_Debug("Reader thread started");
   while (1 == GetRunThreadsSync(con))
   {
-    rtTime_Now(&con->reader_reconnect_time);
     if((err = rtConnection_Read(con, -1)) != RT_OK)
     {
       if (0 == GetRunThreadsSync(con))
@@ -1922,11 +1946,10 @@ static void * rtConnection_ReaderThread(void *data)
         */
         while (1 == GetRunThreadsSync(con))
         {
-            err = rtConnection_ConnectAndRegister(con, &con->reader_reconnect_time);
+            err = rtConnection_ConnectAndRegister(con, con->read_generation);
             if (err == RT_OK || 1 != GetRunThreadsSync(con))
                 break;
             sleep(5);
-            rtTime_Now(&con->reader_reconnect_time);//set this time to take ownership of reconnect
         }
       }
       else
-- 
2.43.0


From d99c2b34975010f1a5d3329d50794999e12c4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:56 +0000
Subject: [PATCH 49/49] fix: unregistering an element could withdraw that of
 another handle of the process

The daemon removed the name from any registration of the same connection,
and a connection is shared by all handles of a process.
---
 src/rtmessage/rtrouted.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 1969aba..107d835 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -810,12 +810,12 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         }
         else
         {
-          //Not a route. Is it an alias of one of the sender's routes?
+          //Not a route. Is it an alias of the sender's route with that id?
           rtLog_Debug("Removing alias %s", expression);
           for (i = 0; i < rtVector_Size(gRoutes); i++)
           {
             rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
-            if((route->subscription) && (route->subscription->client == sender) &&
+            if((route->subscription) && (route->subscription->client == sender) && (route->subscription->id == route_id) &&
                (RT_OK == rtRoutingTree_RemoveTopicRoute(gRoutingTree, expression, (void *)route)))
               break;
           }
-- 
2.43.0

