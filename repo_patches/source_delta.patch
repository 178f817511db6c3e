From 52239d97dcbb90113c28f510cdd08de63ae0a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 001/128] fix: do not run a work-group of an empty NDRange in
 quick mode

---
 src/core/KernelInvocation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b6a6ca5..ac94684 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -59,7 +59,8 @@ KernelInvocation::KernelInvocation(const Context* context, const Kernel* kernel,
     m_numWorkers = 1;
 
   // Check for quick-mode environment variable
-  if (checkEnv("OCLGRIND_QUICK"))
+  bool empty = !m_numGroups.x || !m_numGroups.y || !m_numGroups.z;
+  if (checkEnv("OCLGRIND_QUICK") && !empty)
   {
     // Only run first and last work-groups in quick-mode
     Size3 firstGroup(0, 0, 0);
-- 
2.43.0


From b02ee45c2fd1b1143660abbf09a3973ea5dae4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 002/128] fix: honour row and slice pitches of initial image
 data

---
 src/runtime/runtime.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a645e71..cc7e9e6 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1742,8 +1742,32 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   }
   else
   {
+    // Pack initial data that uses row or slice padding
+    // TODO: Use pitches with CL_MEM_USE_HOST_PTR
+    std::vector<unsigned char> packed;
+    size_t rowSize = width * pixelSize;
+    size_t rowPitch =
+      image_desc->image_row_pitch ? image_desc->image_row_pitch : rowSize;
+    size_t slicePitch = image_desc->image_slice_pitch
+                          ? image_desc->image_slice_pitch
+                          : rowPitch * height;
+    if (host_ptr && (flags & CL_MEM_COPY_HOST_PTR) && size &&
+        (rowPitch != rowSize || slicePitch != rowSize * height))
+    {
+      packed.resize(size);
+      for (size_t slice = 0; slice < depth * arraySize; slice++)
+      {
+        for (size_t row = 0; row < height; row++)
+        {
+          memcpy(&packed[(slice * height + row) * rowSize],
+                 (unsigned char*)host_ptr + slice * slicePitch + row * rowPitch,
+                 rowSize);
+        }
+      }
+      host_ptr = packed.data();
+    }
+
     // Create buffer
-    // TODO: Use pitches
     mem = createBuffer(context, flags, size, host_ptr, errcode_ret);
     if (!mem)
     {
-- 
2.43.0


From 6986c8c149e3f5c2dd6af90542e467f90c3d0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 003/128] fix: propagate failures through chains of events and
 still run earlier commands of the queue

---
 src/core/Queue.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 1b603b6..f0fb185 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -177,11 +177,12 @@ void Queue::execute(Command* command, bool flush)
   auto it = std::find(m_queue.begin(), m_queue.end(), command);
 
   // If there is a previous (older) command in the queue AND either the queue
-  // is not out of order OR needs to be flushed, then add event associated with
-  // previous (older) command as a dependency
+  // is not out of order OR needs to be flushed, then execute that command first
   if (it != m_queue.begin() && (!m_out_of_order || flush))
   {
-    command->waitList.push_back((*std::prev(it))->event);
+    Command* previous = *std::prev(it);
+    execute(previous, flush);
+    command->execBefore.push_front(previous);
   }
 
   // Make sure all events in the wait list are complete before executing
@@ -191,13 +192,7 @@ void Queue::execute(Command* command, bool flush)
     Event* evt = command->waitList.front();
     command->waitList.pop_front();
 
-    if (evt->state < 0)
-    {
-      command->event->state = evt->state;
-      m_queue.erase(it);
-      return;
-    }
-    else if (evt->state != CL_COMPLETE)
+    if (evt->state > CL_COMPLETE)
     {
       if (evt->command)
       {
@@ -210,8 +205,17 @@ void Queue::execute(Command* command, bool flush)
         // If it's a user event then place it back at the of the wait list, and
         // check it later
         command->waitList.push_back(evt);
+        continue;
       }
     }
+
+    // Commands that wait for a failed event must not be executed
+    if (evt->state < 0)
+    {
+      command->event->state = evt->state;
+      m_queue.erase(it);
+      return;
+    }
   }
 
   // Dispatch command
-- 
2.43.0


From 4a5ea76c91555cedfb9c5eced3025904a311f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 004/128] fix: make barriers and markers of out-of-order queues
 order the commands around them

---
 src/core/Queue.cpp      | 17 +++++++++++++++++
 src/core/Queue.h        |  2 ++
 src/runtime/runtime.cpp |  4 ++++
 3 files changed, 23 insertions(+)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index f0fb185..aa03b3f 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -184,6 +184,23 @@ void Queue::execute(Command* command, bool flush)
     execute(previous, flush);
     command->execBefore.push_front(previous);
   }
+  else if (it != m_queue.begin())
+  {
+    // Commands of an out-of-order queue still have to wait for the last barrier
+    // before them, and some of them wait for all previous commands
+    auto last = std::prev(it);
+    if (!command->waitForAll)
+    {
+      while (last != m_queue.begin() && !(*last)->isBarrier)
+        last--;
+    }
+    if (command->waitForAll || (*last)->isBarrier)
+    {
+      Command* previous = *last;
+      execute(previous, command->waitForAll);
+      command->execBefore.push_front(previous);
+    }
+  }
 
   // Make sure all events in the wait list are complete before executing
   // current command
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 16eedb7..7631bba 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -47,6 +47,8 @@ struct Command
   CommandType type;
   std::list<Event*> waitList;
   std::list<Command*> execBefore;
+  bool isBarrier = false;  // All later commands wait for this one
+  bool waitForAll = false; // Waits for all earlier commands
   Command()
   {
     type = EMPTY;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index cc7e9e6..76e130d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5321,6 +5321,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMarkerWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitForAll = num_events_in_wait_list == 0;
   asyncEnqueue(command_queue, CL_COMMAND_MARKER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5347,6 +5348,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueBarrierWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->isBarrier = true;
+  cmd->waitForAll = num_events_in_wait_list == 0;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5384,6 +5387,7 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->isBarrier = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events, event_list,
                NULL);
 
-- 
2.43.0


From 2fc1e5034ca769e83e4b98f5550c75cbc8a9a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 005/128] fix: call event callbacks that are registered after
 the event completed

---
 src/runtime/runtime.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 76e130d..53ece9b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3691,6 +3691,13 @@ clSetEventCallback(cl_event event, cl_int command_exec_callback_type,
                    command_exec_callback_type);
   }
 
+  // The callback is due immediately if the event has already completed
+  if (isComplete(event))
+  {
+    pfn_notify(event, event->event->state, user_data);
+    return CL_SUCCESS;
+  }
+
   event->callbacks.push_back(make_pair(pfn_notify, user_data));
 
   return CL_SUCCESS;
-- 
2.43.0


From 2bc920148e3b2f6eb866abaef8e315c9aa16a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 006/128] fix: do not block in clFlush when commands depend on
 incomplete user events

---
 src/core/Queue.cpp      | 27 +++++++++++++++++++++++++++
 src/core/Queue.h        |  1 +
 src/runtime/runtime.cpp |  7 ++++++-
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index aa03b3f..3c5895b 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -171,6 +171,33 @@ bool Queue::isEmpty() const
   return m_queue.empty();
 }
 
+bool Queue::isBlocked() const
+{
+  // Check if any command depends on a user event that is not yet complete
+  set<const Queue*> visited;
+  list<const Queue*> pending = {this};
+  while (!pending.empty())
+  {
+    const Queue* queue = pending.front();
+    pending.pop_front();
+    if (!visited.insert(queue).second)
+      continue;
+
+    for (auto cmd : queue->m_queue)
+    {
+      for (auto evt : cmd->waitList)
+      {
+        if (evt->state <= CL_COMPLETE)
+          continue;
+        if (!evt->command)
+          return true;
+        pending.push_back(evt->queue);
+      }
+    }
+  }
+  return false;
+}
+
 void Queue::execute(Command* command, bool flush)
 {
   // Find command in queue
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 7631bba..cb29a2b 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -223,6 +223,7 @@ public:
   void executeWriteBuffer(BufferCommand* cmd);
   void executeWriteBufferRect(BufferRectCommand* cmd);
 
+  bool isBlocked() const;
   bool isEmpty() const;
   Command* finish();
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 53ece9b..d7270dc 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3773,7 +3773,12 @@ CL_API_ENTRY cl_int CL_API_CALL clFlush(cl_command_queue command_queue)
   }
 
   // TODO: Implement properly?
-  clFinish(command_queue);
+  // A flush must not wait for user events; commands that depend on them are
+  // executed when something waits for them
+  if (!command_queue->queue->isBlocked())
+  {
+    clFinish(command_queue);
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From dc076cd4e229dad162eb373f460be8cbb0f4cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 007/128] fix: execute long queues without deep recursion

---
 src/core/Queue.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 3c5895b..8b8acb9 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -203,13 +203,17 @@ void Queue::execute(Command* command, bool flush)
   // Find command in queue
   auto it = std::find(m_queue.begin(), m_queue.end(), command);
 
-  // If there is a previous (older) command in the queue AND either the queue
-  // is not out of order OR needs to be flushed, then execute that command first
+  // If there are previous (older) commands in the queue AND either the queue
+  // is not out of order OR needs to be flushed, then execute them first
+  // (oldest to newest, so that long queues do not cause deep recursion)
   if (it != m_queue.begin() && (!m_out_of_order || flush))
   {
-    Command* previous = *std::prev(it);
-    execute(previous, flush);
-    command->execBefore.push_front(previous);
+    while (m_queue.front() != command)
+    {
+      Command* previous = m_queue.front();
+      execute(previous, flush);
+      command->execBefore.push_front(previous);
+    }
   }
   else if (it != m_queue.begin())
   {
-- 
2.43.0


From 7dcd4a7a13930324e330dfa6105a80b7cb07afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 008/128] fix: check accesses to mapped buffers against the
 bytes of the mapped region only

---
 src/core/Memory.cpp      | 2 +-
 src/plugins/MemCheck.cpp | 6 +++---
 src/plugins/MemCheck.h   | 1 -
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index ef75e92..ab99bc2 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -430,7 +430,7 @@ void* Memory::mapBuffer(size_t address, size_t offset, size_t size)
   size_t buffer = extractBuffer(address);
 
   // Bounds check
-  if (!isAddressValid(address, size))
+  if (!isAddressValid(address + offset, size))
   {
     return NULL;
   }
diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 7567f26..4863c80 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -79,7 +79,7 @@ void MemCheck::memoryLoad(const Memory* memory, const WorkGroup* workGroup,
 void MemCheck::memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags)
 {
-  MapRegion map = {address, offset, size, memory->getPointer(address + offset),
+  MapRegion map = {address + offset, size, memory->getPointer(address + offset),
                    (flags == CL_MAP_READ ? MapRegion::READ : MapRegion::WRITE)};
   m_mapRegions.push_back(map);
 }
@@ -177,7 +177,7 @@ void MemCheck::checkLoad(const Memory* memory, size_t address,
   {
     if (region->type == MapRegion::WRITE &&
         address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid read from buffer mapped for writing");
     }
@@ -207,7 +207,7 @@ void MemCheck::checkStore(const Memory* memory, size_t address,
        region++)
   {
     if (address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid write to mapped buffer");
     }
diff --git a/src/plugins/MemCheck.h b/src/plugins/MemCheck.h
index c5e80cc..8e2a271 100644
--- a/src/plugins/MemCheck.h
+++ b/src/plugins/MemCheck.h
@@ -55,7 +55,6 @@ private:
   struct MapRegion
   {
     size_t address;
-    size_t offset;
     size_t size;
     const void* ptr;
     enum
-- 
2.43.0


From 65ab247f6023aab2af134154cb650635d3dd422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 009/128] fix: detect and attribute races between work-groups
 of offset and multi-dimensional NDRanges

---
 src/core/WorkGroup.cpp       |  4 +--
 src/plugins/RaceDetector.cpp | 70 +++++++++++++++---------------------
 src/plugins/RaceDetector.h   |  3 +-
 3 files changed, 32 insertions(+), 45 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index da03897..4a60992 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -36,8 +36,8 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
 
   m_groupIndex =
     (m_groupID.x +
-     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y) *
-                      kernelInvocation->getNumGroups().x));
+     (m_groupID.y + m_groupID.z * kernelInvocation->getNumGroups().y) *
+       kernelInvocation->getNumGroups().x);
 
   // Allocate local memory
   m_localMemory =
diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 02598f6..3c9d411 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -168,7 +168,6 @@ void RaceDetector::workGroupComplete(const WorkGroup* workGroup)
   syncWorkItems(m_context->getGlobalMemory(), state, state.wiGlobal);
 
   // Merge global accesses across kernel invocation
-  size_t group = workGroup->getGroupIndex();
   for (auto& record : state.wgGlobal)
   {
     size_t address = record.first;
@@ -181,11 +180,11 @@ void RaceDetector::workGroupComplete(const WorkGroup* workGroup)
     AccessRecord& b = m_globalAccesses.at(buffer)[offset];
 
     // Check for races with previous accesses
-    if (check(a.load, b.store) && getAccessWorkGroup(b.store) != group)
+    if (check(a.load, b.store))
       insertKernelRace({AddrSpaceGlobal, address, a.load, b.store});
-    if (check(a.store, b.load) && getAccessWorkGroup(b.load) != group)
+    if (check(a.store, b.load))
       insertKernelRace({AddrSpaceGlobal, address, a.store, b.load});
-    if (check(a.store, b.store) && getAccessWorkGroup(b.store) != group)
+    if (check(a.store, b.store))
       insertKernelRace({AddrSpaceGlobal, address, a.store, b.store});
 
     // Insert accesses
@@ -234,17 +233,6 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
   return false;
 }
 
-size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
-{
-  if (access.isWorkItem())
-  {
-    const Size3& wgsize = m_kernelInvocation->getLocalSize();
-    return access.getEntity() / (wgsize.x * wgsize.y * wgsize.z);
-  }
-  else
-    return access.getEntity();
-}
-
 void RaceDetector::insert(AccessRecord& record,
                           const MemoryAccess& access) const
 {
@@ -290,6 +278,30 @@ void RaceDetector::insertRace(RaceList& races, const Race& race) const
   races.push_back(race);
 }
 
+void RaceDetector::logEntity(Context::Message& msg,
+                             const MemoryAccess& access) const
+{
+  if (access.isWorkItem())
+  {
+    // Global index is computed from global ID, which includes global offset
+    Size3 wgsize = m_kernelInvocation->getLocalSize();
+    Size3 gsize = m_kernelInvocation->getGlobalSize();
+    Size3 offset = m_kernelInvocation->getGlobalOffset();
+    size_t linearOffset =
+      offset.x + (offset.y + offset.z * gsize.y) * gsize.x;
+    Size3 id(access.getEntity() - linearOffset, gsize);
+    Size3 global(id.x + offset.x, id.y + offset.y, id.z + offset.z);
+    Size3 local(id.x % wgsize.x, id.y % wgsize.y, id.z % wgsize.z);
+    Size3 group(id.x / wgsize.x, id.y / wgsize.y, id.z / wgsize.z);
+    msg << "Global" << global << " Local" << local << " Group" << group;
+  }
+  else
+  {
+    msg << "Group"
+        << Size3(access.getEntity(), m_kernelInvocation->getNumGroups());
+  }
+}
+
 void RaceDetector::logRace(const Race& race) const
 {
   const char* raceType;
@@ -305,36 +317,12 @@ void RaceDetector::logRace(const Race& race) const
       << endl
       << "First entity:  ";
 
-  if (race.a.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.a.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.a.getEntity(), m_kernelInvocation->getLocalSize());
-  }
+  logEntity(msg, race.a);
 
   msg << endl << race.a.getInstruction() << endl << endl << "Second entity: ";
 
   // Show details of other entity involved in race
-  if (race.b.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.b.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.b.getEntity(), m_kernelInvocation->getLocalSize());
-  }
+  logEntity(msg, race.b);
   msg << endl << race.b.getInstruction() << endl;
   msg.send();
 }
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index e352c6c..e6ea980 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -122,12 +122,11 @@ private:
   std::mutex kernelRacesMutex;
   RaceList kernelRaces;
 
-  size_t getAccessWorkGroup(const MemoryAccess& access) const;
-
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
   void insert(AccessRecord& record, const MemoryAccess& access) const;
   void insertKernelRace(const Race& race);
   void insertRace(RaceList& races, const Race& race) const;
+  void logEntity(Context::Message& msg, const MemoryAccess& access) const;
   void logRace(const Race& race) const;
   void registerAccess(const Memory* memory, const WorkGroup* workGroup,
                       const WorkItem* workItem, size_t address, size_t size,
-- 
2.43.0


From 326d4d9524a73b749c62041383c08d69f2041f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 010/128] fix: detect races with work-items that store several
 values to one location

---
 src/plugins/RaceDetector.cpp | 38 ++++++++++++++++++++++++++++++++----
 src/plugins/RaceDetector.h   |  5 +++++
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 3c9d411..0cd68b2 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -226,7 +226,8 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
       return true;
 
     // Write-write race if not uniform
-    if (!m_allowUniformWrites || (a.getStoreData() != b.getStoreData()))
+    if (!m_allowUniformWrites || a.isMultiStore() || b.isMultiStore() ||
+        (a.getStoreData() != b.getStoreData()))
       return true;
   }
 
@@ -248,6 +249,18 @@ void RaceDetector::insert(AccessRecord& record,
   }
 }
 
+void RaceDetector::insertStore(AccessRecord& record,
+                               const MemoryAccess& access) const
+{
+  // Remember if the same entity stores different values
+  if (record.store.isSet() && !record.store.isAtomic() && !access.isAtomic() &&
+      (access.isMultiStore() ||
+       access.getStoreData() != record.store.getStoreData()))
+    record.store.setMultiStore();
+  else
+    insert(record, access);
+}
+
 void RaceDetector::insertKernelRace(const Race& race)
 {
   lock_guard<mutex> lock(kernelRacesMutex);
@@ -361,9 +374,12 @@ void RaceDetector::registerAccess(const Memory* memory,
   for (size_t i = 0; i < size; i++)
   {
     if (storeData)
+    {
       access.setStoreData(storeData[i]);
-
-    insert(accesses[address + i], access);
+      insertStore(accesses[address + i], access);
+    }
+    else
+      insert(accesses[address + i], access);
   }
 }
 
@@ -403,7 +419,7 @@ void RaceDetector::syncWorkItems(const Memory* memory, WorkGroupState& state,
       {
         insert(b, a.store);
         if (memory->getAddressSpace() == AddrSpaceGlobal)
-          insert(state.wgGlobal[address], a.store);
+          insertStore(state.wgGlobal[address], a.store);
       }
     }
 
@@ -418,6 +434,7 @@ void RaceDetector::syncWorkItems(const Memory* memory, WorkGroupState& state,
 RaceDetector::MemoryAccess::MemoryAccess()
 {
   this->info = 0;
+  this->multiStore = false;
   this->instruction = NULL;
 }
 
@@ -431,6 +448,8 @@ RaceDetector::MemoryAccess::MemoryAccess(const WorkGroup* workGroup,
   this->info |= store << STORE_BIT;
   this->info |= atomic << ATOMIC_BIT;
 
+  this->multiStore = false;
+
   if (workItem)
   {
     this->entity = workItem->getGlobalIndex();
@@ -447,6 +466,7 @@ RaceDetector::MemoryAccess::MemoryAccess(const WorkGroup* workGroup,
 void RaceDetector::MemoryAccess::clear()
 {
   this->info = 0;
+  this->multiStore = false;
   this->instruction = NULL;
 }
 
@@ -480,6 +500,16 @@ bool RaceDetector::MemoryAccess::isWorkItem() const
   return !isWorkGroup();
 }
 
+bool RaceDetector::MemoryAccess::isMultiStore() const
+{
+  return this->multiStore;
+}
+
+void RaceDetector::MemoryAccess::setMultiStore()
+{
+  this->multiStore = true;
+}
+
 size_t RaceDetector::MemoryAccess::getEntity() const
 {
   return this->entity;
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index e6ea980..14d7d81 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -57,6 +57,7 @@ private:
     static const unsigned ATOMIC_BIT = 2;
     static const unsigned WG_BIT = 3;
     uint8_t storeData;
+    bool multiStore; // different values have been stored
 
   public:
     void clear();
@@ -69,6 +70,9 @@ private:
     bool isWorkGroup() const;
     bool isWorkItem() const;
 
+    bool isMultiStore() const;
+    void setMultiStore();
+
     size_t getEntity() const;
     const llvm::Instruction* getInstruction() const;
 
@@ -124,6 +128,7 @@ private:
 
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
   void insert(AccessRecord& record, const MemoryAccess& access) const;
+  void insertStore(AccessRecord& record, const MemoryAccess& access) const;
   void insertKernelRace(const Race& race);
   void insertRace(RaceList& races, const Race& race) const;
   void logEntity(Context::Message& msg, const MemoryAccess& access) const;
-- 
2.43.0


From 1dec28b98054c001bf3f55aa2183f931f5dfa87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 011/128] fix: apply integer min, max and clamp with scalar
 limits to every vector component

---
 src/core/WorkItemBuiltins.cpp | 39 +++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d09483c..3dc1689 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -457,13 +457,22 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        // Limits may be scalars even if the first argument is a vector
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setUInt(_clamp_(UARGV(0, i), UARGV(1, j), UARGV(2, j)), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setSInt(_clamp_(SARGV(0, i), SARGV(1, j), SARGV(2, j)), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -495,13 +504,22 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _max_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        // Second argument may be a scalar even if the first is a vector
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setUInt(_max_(UARGV(0, i), UARGV(1, j)), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _max_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setSInt(_max_(SARGV(0, i), SARGV(1, j)), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -533,13 +551,22 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _min_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        // Second argument may be a scalar even if the first is a vector
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setUInt(_min_(UARGV(0, i), UARGV(1, j)), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _min_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setSInt(_min_(SARGV(0, i), SARGV(1, j)), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
-- 
2.43.0


From 26bc4b604cedf34a075126e49553347f9661c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 012/128] fix: detect every overflow in add_sat, sub_sat and
 mad_sat of long

---
 src/core/WorkItemBuiltins.cpp | 38 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 3dc1689..11ecab4 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1930,10 +1930,11 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) == (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        // Overflow if the operands have the same sign and the result does not
+        if ((SARGV(0, i) < 0) == (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
@@ -2131,23 +2132,20 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        // Check for overflow in multiplication
-        if (_smul_hi_(SARGV(0, i), SARGV(1, i), 64))
+      {
+        // Compute the full 128-bit result to determine whether it fits
+        int64_t hi = _smul_hi_(SARGV(0, i), SARGV(1, i), 64);
+        uint64_t lo = UARGV(0, i) * UARGV(1, i);
+        uint64_t sum = lo + UARGV(2, i);
+        hi += (SARGV(2, i) < 0 ? -1 : 0) + (sum < lo ? 1 : 0);
+        sresult = sum;
+        if (hi != (sresult < 0 ? -1 : 0))
         {
-          sresult =
-            (SARGV(0, i) > 0) ^ (SARGV(1, i) > 0) ? INT64_MIN : INT64_MAX;
-        }
-        else
-        {
-          // Check for overflow in addition
-          int64_t m = SARGV(0, i) * SARGV(1, i);
-          if ((m > 0) == (SARGV(2, i) > 0) && (m > 0) != (sresult > 0))
-          {
-            sresult = (m > 0) ? INT64_MAX : INT64_MIN;
-          }
+          sresult = hi < 0 ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
+      }
       default:
         FATAL_ERROR("Unsupported argument type: %c",
                     getOverloadArgType(overload));
@@ -2286,10 +2284,12 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) != (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        // Overflow if the operands have different signs and the result has the
+        // sign of the second
+        if ((SARGV(0, i) < 0) != (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From c86eebdff7f888cdc80027889d6ee8ea295f0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 013/128] fix: honour rounding modes, NaNs and single rounding
 in conversions

---
 src/core/WorkItemBuiltins.cpp | 46 +++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 11ecab4..94aee08 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3152,6 +3152,24 @@ class WorkItemBuiltins
     }
   }
 
+  // Round a value to an integer using a specific rounding mode. This must not
+  // depend on the dynamic rounding mode, since compilers may inline functions
+  // such as rint assuming that the default rounding mode is in effect.
+  template <typename T> static T roundToInteger(T x, int mode)
+  {
+    switch (mode)
+    {
+    case FE_TOWARDZERO:
+      return trunc(x);
+    case FE_UPWARD:
+      return ceil(x);
+    case FE_DOWNWARD:
+      return floor(x);
+    default:
+      return rint(x);
+    }
+  }
+
   DEFINE_BUILTIN(convert_float)
   {
     // Use rounding mode
@@ -3178,7 +3196,11 @@ class WorkItemBuiltins
       case 's':
       case 'i':
       case 'l':
-        result.setFloat(SARGV(0, i), i);
+        // Convert directly to the result type to avoid rounding twice
+        if (result.size == 4)
+          result.setFloat((float)SARGV(0, i), i);
+        else
+          result.setFloat((double)SARGV(0, i), i);
         break;
       case 'f':
       case 'd':
@@ -3257,6 +3279,8 @@ class WorkItemBuiltins
     // Use rounding mode
     const int origRnd = fegetround();
     setConvertRoundingMode(fnName, FE_TOWARDZERO);
+    const int roundingMode = fegetround();
+    fesetround(origRnd);
 
     for (unsigned i = 0; i < result.num; i++)
     {
@@ -3297,11 +3321,13 @@ class WorkItemBuiltins
       case 'd':
         if (sat)
         {
-          r = rint(_clamp_((long double)FARGV(0, i), 0.0L, (long double)max));
+          r = roundToInteger(
+            _clamp_((long double)FARGV(0, i), 0.0L, (long double)max),
+            roundingMode);
         }
         else
         {
-          r = rint(FARGV(0, i));
+          r = roundToInteger(FARGV(0, i), roundingMode);
         }
         break;
       default:
@@ -3311,7 +3337,6 @@ class WorkItemBuiltins
 
       result.setUInt(r, i);
     }
-    fesetround(origRnd);
   }
 
   DEFINE_BUILTIN(convert_sint)
@@ -3344,6 +3369,8 @@ class WorkItemBuiltins
     // Use rounding mode
     const int origRnd = fegetround();
     setConvertRoundingMode(fnName, FE_TOWARDZERO);
+    const int roundingMode = fegetround();
+    fesetround(origRnd);
 
     for (unsigned i = 0; i < result.num; i++)
     {
@@ -3374,12 +3401,16 @@ class WorkItemBuiltins
       case 'd':
         if (sat)
         {
-          r = rint(_clamp_((long double)FARGV(0, i), (long double)min,
-                           (long double)max));
+          // NaN is converted to zero
+          r = std::isnan(FARGV(0, i))
+                ? 0
+                : roundToInteger(_clamp_((long double)FARGV(0, i),
+                                         (long double)min, (long double)max),
+                                 roundingMode);
         }
         else
         {
-          r = rint(FARGV(0, i));
+          r = roundToInteger(FARGV(0, i), roundingMode);
         }
         break;
       default:
@@ -3389,7 +3420,6 @@ class WorkItemBuiltins
 
       result.setSInt(r, i);
     }
-    fesetround(origRnd);
   }
 
   DEFINE_BUILTIN(printf_builtin)
-- 
2.43.0


From f2bcd19c289e0092c0c98d729d50c28ef3d83ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 014/128] fix: evaluate isnormal and bitselect on float values
 in single precision

---
 src/core/WorkItemBuiltins.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 94aee08..3e78d40 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2775,9 +2775,17 @@ class WorkItemBuiltins
   {
     return std::isnan(x);
   }
-  static int64_t _isnorm_(double x)
+  DEFINE_BUILTIN(isnormal_builtin)
   {
-    return isnormal(x);
+    int64_t t = result.num > 1 ? -1 : 1;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      // Single precision subnormals are normal in double precision
+      double x = FARGV(0, i);
+      bool single = getOverloadArgType(overload) == 'f';
+      bool r = single ? std::isnormal((float)x) : std::isnormal(x);
+      result.setSInt(r * t, i);
+    }
   }
   static int64_t _isord_(double x, double y)
   {
@@ -2835,23 +2843,12 @@ class WorkItemBuiltins
     return ((a & ~c) | (b & c));
   }
 
-  static double _fbitselect_(double a, double b, double c)
-  {
-    uint64_t _a = *(uint64_t*)&a;
-    uint64_t _b = *(uint64_t*)&b;
-    uint64_t _c = *(uint64_t*)&c;
-    uint64_t _r = _ibitselect_(_a, _b, _c);
-    return *(double*)&_r;
-  }
-
   DEFINE_BUILTIN(bitselect)
   {
     switch (getOverloadArgType(overload))
     {
     case 'f':
     case 'd':
-      f3arg(workItem, callInst, fnName, overload, result, _fbitselect_);
-      break;
     case 'h':
     case 't':
     case 'j':
@@ -3882,7 +3879,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("isfinite", rel1arg, _isfin_);
   ADD_BUILTIN("isinf", rel1arg, _isinf_);
   ADD_BUILTIN("isnan", rel1arg, _isnan_);
-  ADD_BUILTIN("isnormal", rel1arg, _isnorm_);
+  ADD_BUILTIN("isnormal", isnormal_builtin, NULL);
   ADD_BUILTIN("isordered", rel2arg, _isord_);
   ADD_BUILTIN("isunordered", rel2arg, _isuord_);
   ADD_BUILTIN("select", select_builtin, NULL);
-- 
2.43.0


From c5b32601eda70f90d476eafd060b53a993d0f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 015/128] fix: address elements of vector stores by the type
 that is stored

---
 src/core/Program.cpp | 48 +++++++-------------------------------------
 1 file changed, 7 insertions(+), 41 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e307af3..55b76c0 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -978,49 +978,15 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
                                          llvm::StoreInst* store,
                                          llvm::IntegerType* indexType)
 {
-  // Create GEP for scalar value
-  llvm::GetElementPtrInst* scalarPtr = NULL;
-  if (auto gep = llvm::dyn_cast<llvm::GetElementPtrInst>(ptr))
-  {
-    // Create GEP from existing GEP
-    std::vector<llvm::Value*> indices;
-    for (auto idx = gep->idx_begin(); idx != gep->idx_end(); idx++)
-    {
-      indices.push_back(*idx);
-    }
-
-    auto* gepResultType = gep->getResultElementType();
-    if (gepResultType->isIntegerTy(8))
-    {
-      auto byteOffset =
-        getTypeSize(store->getValueOperand()->getType()->getScalarType());
-      auto* mul = llvm::BinaryOperator::CreateMul(
-        index,
-        llvm::Constant::getIntegerValue(
-          index->getType(),
-          llvm::APInt(index->getType()->getIntegerBitWidth(), byteOffset)));
-      mul->insertBefore(store->getIterator());
-      indices.push_back(mul);
-    }
-    else
-    {
-      indices.push_back(index);
-    }
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      gep->getSourceElementType(), gep->getPointerOperand(), indices);
-  }
-  else
-  {
-    // Create GEP from non-GEP pointer
-    std::vector<llvm::Value*> indices;
-    indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
-    indices.push_back(index);
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      store->getValueOperand()->getType(), ptr, indices);
-  }
+  // Create GEP for scalar value, based on the type that is being stored rather
+  // than any type that was used to compute the address
+  std::vector<llvm::Value*> indices;
+  indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
+  indices.push_back(index);
+  llvm::GetElementPtrInst* scalarPtr = llvm::GetElementPtrInst::Create(
+    store->getValueOperand()->getType(), ptr, indices);
   scalarPtr->setDebugLoc(store->getDebugLoc());
   scalarPtr->insertBefore(store->getIterator());
-
   return scalarPtr;
 }
 } // namespace
-- 
2.43.0


From 7490610a1d370f15f00b12d529af7dc71c4153b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 016/128] fix: keep whole-vector stores when memory may have
 changed since the vector was loaded

---
 src/core/Program.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 55b76c0..c15a032 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -989,6 +989,25 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
   scalarPtr->insertBefore(store->getIterator());
   return scalarPtr;
 }
+
+// Returns true if value is the vector that was loaded from the destination of
+// the store, and that vector cannot have changed since
+bool isStoreDestination(llvm::Value* value, llvm::StoreInst* store)
+{
+  auto load = llvm::dyn_cast<llvm::LoadInst>(value);
+  if (!load || load->getPointerOperand() != store->getPointerOperand() ||
+      load->getParent() != store->getParent())
+    return false;
+
+  // The load is used by the store, so it comes before it
+  for (auto inst = load->getNextNode(); inst != store;
+       inst = inst->getNextNode())
+  {
+    if (inst->mayWriteToMemory())
+      return false;
+  }
+  return true;
+}
 } // namespace
 
 void Program::scalarizeAggregateStore(llvm::StoreInst* store)
@@ -1007,6 +1026,10 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     llvm::Value* value = insert->getOperand(1);
     llvm::Value* index = insert->getOperand(2);
 
+    // Check if the input to the insertelement instruction came from something
+    // other than a load to the same address as the store
+    bool vectorIsDest = isStoreDestination(vector, store);
+
     // Create GEP for scalar value
     llvm::GetElementPtrInst* scalarPtr =
       createScalarGEP(vectorPtr, index, store, gepIndexType);
@@ -1018,10 +1041,7 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     scalarStore->setDebugLoc(store->getDebugLoc());
     scalarStore->insertAfter(scalarPtr);
 
-    // Check if the input to the insertelement instruction came from something
-    // other than a load to the same address as the store
-    llvm::LoadInst* load = llvm::dyn_cast<llvm::LoadInst>(vector);
-    if (!(load && load->getPointerOperand() == store->getPointerOperand()))
+    if (!vectorIsDest)
     {
       // Replace value in store with the input to the insertelement instruction
       llvm::StoreInst* _store =
@@ -1048,14 +1068,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
       llvm::cast<llvm::FixedVectorType>(v1->getType())->getNumElements();
 
     // Check if shuffle sources came from a load with same address as the store
-    llvm::LoadInst* load;
-    bool v1SourceIsDest = false, v2SourceIsDest = false;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v1)) &&
-        load->getPointerOperand() == vectorPtr)
-      v1SourceIsDest = true;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v2)) &&
-        load->getPointerOperand() == vectorPtr)
-      v2SourceIsDest = true;
+    bool v1SourceIsDest = isStoreDestination(v1, store);
+    bool v2SourceIsDest = isStoreDestination(v2, store);
 
     // Get mask indices that don't correspond to the destination vector
     stack<unsigned> indices;
-- 
2.43.0


From ef10e372194416d607174c3bba1d1dbf37771d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 017/128] fix: recognise components kept by the second operand
 of a shuffle when storing vectors

---
 src/core/Program.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index c15a032..29f285d 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -1086,7 +1086,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
         ((unsigned)idx < v1num ? v1SourceIsDest : v2SourceIsDest);
 
       // If destination is used in non-identity position, leave shuffle as is
-      if (sourceIsDest && (unsigned)idx != i)
+      unsigned sourceIndex = (unsigned)idx < v1num ? idx : idx - v1num;
+      if (sourceIsDest && sourceIndex != i)
         return;
 
       // Add non-destination index
-- 
2.43.0


From 60f3a4fe9693080c2a8f2aefbbd69d496d04e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 018/128] fix: reject ranges whose end overflows

---
 src/runtime/runtime.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index d7270dc..c748093 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -252,6 +252,12 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+// Check that a range of bytes lies within an object, without overflowing
+bool isRangeValid(size_t offset, size_t size, size_t total)
+{
+  return offset <= total && size <= total - offset;
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -1518,7 +1524,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
 
   _cl_buffer_region region = *(_cl_buffer_region*)buffer_create_info;
-  if (region.origin + region.size > buffer->size)
+  if (!isRangeValid(region.origin, region.size, buffer->size))
   {
     SetErrorInfo(buffer->context, CL_INVALID_VALUE,
                  "Region doesn't fit inside parent buffer");
@@ -3821,7 +3827,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -3970,7 +3976,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4120,14 +4126,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
-  if (dst_offset + cb > dst_buffer->size)
+  if (!isRangeValid(dst_offset, cb, dst_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "dst_offset + cb (" << dst_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << dst_buffer->size << " bytes)");
   }
-  if (src_offset + cb > src_buffer->size)
+  if (!isRangeValid(src_offset, cb, src_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "src_offset + cb (" << src_offset << " + " << cb
@@ -4289,7 +4295,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4385,21 +4391,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (!isRangeValid(origin[0], region[0], width))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[0] + region[0] > width ("
                       << origin[0] << " + " << region[0] << " > " << width
                       << " )");
   }
-  if (origin[1] + region[1] > height)
+  if (!isRangeValid(origin[1], region[1], height))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[1] + region[1] > height ("
                       << origin[1] << " + " << region[1] << " > " << height
                       << " )");
   }
-  if (origin[2] + region[2] > depth)
+  if (!isRangeValid(origin[2], region[2], depth))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[2] + region[2] > depth ("
@@ -4837,7 +4843,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "offset + cb (" << offset << " + " << cb
@@ -4945,21 +4951,21 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (!isRangeValid(origin[0], region[0], width))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[0] + region[0] > width ("
                    << origin[0] << " + " << region[0] << " > " << width
                    << " )");
   }
-  if (origin[1] + region[1] > height)
+  if (!isRangeValid(origin[1], region[1], height))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[1] + region[1] > height ("
                    << origin[1] << " + " << region[1] << " > " << height
                    << " )");
   }
-  if (origin[2] + region[2] > depth)
+  if (!isRangeValid(origin[2], region[2], depth))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[2] + region[2] > depth ("
-- 
2.43.0


From 10f88e3f603bec44e1bbbd4daf97abe6574d1b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 019/128] fix: reject empty, missing and overflowing
 rectangular regions

---
 src/runtime/runtime.cpp | 65 +++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c748093..11f8bea 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -258,6 +258,25 @@ bool isRangeValid(size_t offset, size_t size, size_t total)
   return offset <= total && size <= total - offset;
 }
 
+// Check that a rectangular region is not empty and lies within an object of the
+// given size in bytes, without overflowing
+bool isRectValid(const size_t* origin, const size_t* region, size_t row_pitch,
+                 size_t slice_pitch, size_t size)
+{
+  size_t counts[] = {origin[0], region[0],     origin[1],
+                     origin[2], region[1] - 1, region[2] - 1};
+  size_t pitches[] = {1, 1, row_pitch, slice_pitch, row_pitch, slice_pitch};
+  for (int i = 0; i < 6; i++)
+  {
+    if (pitches[i] && counts[i] > size / pitches[i])
+    {
+      return false;
+    }
+    size -= counts[i] * pitches[i];
+  }
+  return true;
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -3898,6 +3917,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
     return err;
   }
 
+  if (!buffer_origin || !host_origin)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Origins cannot be NULL");
+  }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
+
   // Compute pitches if neccessary
   if (buffer_row_pitch == 0)
   {
@@ -3923,9 +3952,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!isRectValid(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4047,6 +4075,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
     return err;
   }
 
+  if (!buffer_origin || !host_origin)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Origins cannot be NULL");
+  }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
+
   // Compute pitches if necessary
   if (buffer_row_pitch == 0)
   {
@@ -4072,9 +4110,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!isRectValid(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4217,6 +4254,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
     return err;
   }
 
+  if (!src_origin || !dst_origin)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Origins cannot be NULL");
+  }
+
   // Compute pitches if necessary
   if (src_row_pitch == 0)
   {
@@ -4242,17 +4285,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
                       dst_origin[1] * dst_row_pitch + dst_origin[0];
 
   // Ensure buffer region valid
-  size_t src_end = src_offset + region[0] + (region[1] - 1) * src_row_pitch +
-                   (region[2] - 1) * src_slice_pitch;
-  size_t dst_end = dst_offset + region[0] + (region[1] - 1) * dst_row_pitch +
-                   (region[2] - 1) * dst_slice_pitch;
-  if (src_end > src_buffer->size)
+  if (!isRectValid(src_origin, region, src_row_pitch, src_slice_pitch,
+                   src_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds source buffer size (" << src_buffer->size
                                                           << " bytes)");
   }
-  if (dst_end > dst_buffer->size)
+  if (!isRectValid(dst_origin, region, dst_row_pitch, dst_slice_pitch,
+                   dst_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds destination buffer size ("
-- 
2.43.0


From d5645eef39515a9132d5056b6496f32605f47e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 020/128] fix: reject image commands with objects or regions
 that are not (within) images

---
 src/runtime/runtime.cpp | 163 ++++++++++++++++++++++++----------------
 1 file changed, 97 insertions(+), 66 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 11f8bea..61ea1c7 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4384,6 +4384,49 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   return CL_SUCCESS;
 }
 
+namespace
+{
+// Check that an image argument is an image, and that a region lies within it
+cl_int checkImageRegion(cl_context context, cl_mem image, const size_t* origin,
+                        const size_t* region)
+{
+  if (!image->isImage)
+  {
+    ReturnErrorInfo(context, CL_INVALID_MEM_OBJECT,
+                    "Memory object is not an image");
+  }
+  if (!origin || !region)
+  {
+    ReturnErrorInfo(context, CL_INVALID_VALUE,
+                    "origin and region cannot be NULL");
+  }
+
+  const cl_image_desc& desc = ((cl_image*)image)->desc;
+  size_t size[3] = {desc.image_width, desc.image_height, desc.image_depth};
+  if (desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    size[1] = desc.image_array_size;
+  if (desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
+    size[2] = desc.image_array_size;
+
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (!region[i])
+    {
+      ReturnErrorInfo(context, CL_INVALID_VALUE,
+                      "Values in region cannot be 0");
+    }
+    if (!isRangeValid(origin[i], region[i], size[i]))
+    {
+      ReturnErrorInfo(context, CL_INVALID_VALUE,
+                      "origin[" << i << "] + region[" << i << "] ("
+                                << origin[i] << " + " << region[i]
+                                << ") exceeds image size (" << size[i] << ")");
+    }
+  }
+  return CL_SUCCESS;
+}
+} // namespace
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   cl_command_queue command_queue, cl_mem image, const void* fill_color,
   const size_t* origin, const size_t* region, cl_uint num_events_in_wait_list,
@@ -4404,10 +4447,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, fill_color);
   }
-  if (!region[0] || !region[1] || !region[2])
+  if (auto err = checkImageRegion(command_queue->context, image, origin,
+                                  region);
+      err != CL_SUCCESS)
   {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Values in region cannot be 0");
+    return err;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4420,40 +4464,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   cl_image* img = (cl_image*)image;
   size_t width = img->desc.image_width;
   size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
   size_t row_pitch = width * pixelSize;
   size_t slice_pitch = height * row_pitch;
 
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
-  // Ensure region is within image bounds
-  if (!isRangeValid(origin[0], region[0], width))
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[0] + region[0] > width ("
-                      << origin[0] << " + " << region[0] << " > " << width
-                      << " )");
-  }
-  if (!isRangeValid(origin[1], region[1], height))
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[1] + region[1] > height ("
-                      << origin[1] << " + " << region[1] << " > " << height
-                      << " )");
-  }
-  if (!isRangeValid(origin[2], region[2], depth))
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[2] + region[2] > depth ("
-                      << origin[2] << " + " << region[2] << " > " << depth
-                      << " )");
-  }
-
   // Generate color data with correct order and data type
   unsigned char* color = new unsigned char[pixelSize];
   for (unsigned output = 0; output < getNumChannels(&img->format); output++)
@@ -4586,6 +4600,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
     return err;
   }
 
+  if (auto err = checkImageRegion(command_queue->context, image, origin,
+                                  region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   cl_image* img = (cl_image*)image;
 
   size_t pixelSize = getPixelSize(&img->format);
@@ -4640,6 +4661,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
     return err;
   }
 
+  if (auto err = checkImageRegion(command_queue->context, image, origin,
+                                  region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   cl_image* img = (cl_image*)image;
 
   size_t pixelSize = getPixelSize(&img->format);
@@ -4692,6 +4720,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_image);
   }
 
+  if (auto err = checkImageRegion(command_queue->context, src_image, src_origin,
+                                  region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
+  if (auto err = checkImageRegion(command_queue->context, dst_image, dst_origin,
+                                  region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   cl_image* src = (cl_image*)src_image;
   cl_image* dst = (cl_image*)dst_image;
   if (src->format.image_channel_order != dst->format.image_channel_order)
@@ -4767,6 +4809,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
     return err;
   }
 
+  if (auto err = checkImageRegion(command_queue->context, src_image, src_origin,
+                                  region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   cl_image* src = (cl_image*)src_image;
   size_t pixel_size = getPixelSize(&src->format);
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
@@ -4817,6 +4866,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
     return err;
   }
 
+  if (auto err = checkImageRegion(command_queue->context, dst_image, dst_origin,
+                                  region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   cl_image* dst = (cl_image*)dst_image;
   size_t pixel_size = getPixelSize(&dst->format);
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
@@ -4960,10 +5016,15 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "Image flags specify host will not read data");
     return NULL;
   }
-  if (!region[0] || !region[1] || !region[2])
+  if (auto err =
+        checkImageRegion(command_queue->context, image, origin, region);
+      err != CL_SUCCESS)
   {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "Values in region cannot be 0");
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4980,40 +5041,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   cl_image* img = (cl_image*)image;
   size_t width = img->desc.image_width;
   size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
   size_t row_pitch = width * pixelSize;
   size_t slice_pitch = height * row_pitch;
 
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
-  // Ensure region is within image bounds
-  if (!isRangeValid(origin[0], region[0], width))
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[0] + region[0] > width ("
-                   << origin[0] << " + " << region[0] << " > " << width
-                   << " )");
-  }
-  if (!isRangeValid(origin[1], region[1], height))
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[1] + region[1] > height ("
-                   << origin[1] << " + " << region[1] << " > " << height
-                   << " )");
-  }
-  if (!isRangeValid(origin[2], region[2], depth))
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[2] + region[2] > depth ("
-                   << origin[2] << " + " << region[2] << " > " << depth
-                   << " )");
-  }
-
   // Compute byte offset and size
   size_t offset =
     origin[0] * pixelSize + origin[1] * row_pitch + origin[2] * slice_pitch;
-- 
2.43.0


From d3eaec4a1600874f63a8ace58d231683f8d80afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 021/128] fix: reject NULL kernels and empty work-groups

---
 src/runtime/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 61ea1c7..fdb12ad 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5164,6 +5164,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!kernel)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_KERNEL, kernel);
+  }
   if (work_dim < 1 || work_dim > 3)
   {
     ReturnErrorInfo(
@@ -5190,6 +5194,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
   for (unsigned i = 0; i < work_dim; i++)
   {
+    if (local_work_size && local_work_size[i] == 0)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "local_work_size[" << i << "] cannot be 0");
+    }
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
         global_work_size[i] % local_work_size[i])
     {
-- 
2.43.0


From aab916a6209bc8b6341fcf946b4145b259de4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 022/128] fix: use the required work-group size when none is
 given

---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fdb12ad..95ef1ac 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5192,6 +5192,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   size_t reqdWorkGroupSize[3];
   size_t totalWGSize = 1;
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
+  if (!local_work_size && reqdWorkGroupSize[0])
+  {
+    local_work_size = reqdWorkGroupSize;
+  }
   for (unsigned i = 0; i < work_dim; i++)
   {
     if (local_work_size && local_work_size[i] == 0)
-- 
2.43.0


From 43d1378d7126fecb005c7464ec6b8f18ae95fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 023/128] fix: reject NULL argument values, programs and events

---
 src/runtime/runtime.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 95ef1ac..67e9b70 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1068,7 +1068,7 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
 
   if (properties)
   {
-    int num = 1;
+    int num = 0;
     while (properties[num])
     {
       num++;
@@ -3001,7 +3001,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   REGISTER_API;
 
   // Check parameters
-  if (program->dispatch != m_dispatchTable)
+  if (!program || program->dispatch != m_dispatchTable)
   {
     SetError(NULL, CL_INVALID_PROGRAM);
     return NULL;
@@ -3157,6 +3157,12 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
                                    << " bytes");
   }
 
+  if (addr == CL_KERNEL_ARG_ADDRESS_PRIVATE && !isSampler && !arg_value)
+  {
+    ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
+                    "arg_value cannot be NULL");
+  }
+
   // Prepare argument value
   oclgrind::TypedValue value;
   value.data = new unsigned char[arg_size];
@@ -3483,6 +3489,11 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
     complete = true;
     for (unsigned i = 0; i < num_events; i++)
     {
+      if (!event_list[i])
+      {
+        ReturnErrorInfo(NULL, CL_INVALID_EVENT, "Event " << i << " is NULL");
+      }
+
       // Skip event if already complete
       if (isComplete(event_list[i]))
       {
-- 
2.43.0


From 479058ac7986b768df2a1a3508fdc95a6434f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 024/128] fix: do not create memory objects with unsupported
 properties

---
 src/runtime/runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 67e9b70..5f20581 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1501,6 +1501,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateBufferWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem buffer = createBuffer(context, flags, size, host_ptr, errcode_ret);
@@ -1843,6 +1844,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateImageWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem image = createImage(context, flags, image_format, image_desc, host_ptr,
-- 
2.43.0


From 18d2e1caabef2574edc30eebc2b506cdf71bd016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 025/128] fix: report failures to compile programs as such

---
 src/runtime/runtime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 5f20581..377ca0d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2719,10 +2719,8 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   }
 
   // Build program
-  if (!program->program->build(oclgrind::Program::COMPILE, options, headers))
-  {
-    ReturnError(program->context, CL_BUILD_PROGRAM_FAILURE);
-  }
+  bool success =
+    program->program->build(oclgrind::Program::COMPILE, options, headers);
 
   // Fire callback
   if (pfn_notify)
@@ -2730,6 +2728,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     pfn_notify(program, user_data);
   }
 
+  if (!success)
+  {
+    ReturnError(program->context, CL_COMPILE_PROGRAM_FAILURE);
+  }
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From fee0fa4275634e0a284a40304ec7dd2cc9442650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 026/128] fix: reject images that exceed their buffer or the
 address space

---
 src/runtime/runtime.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 377ca0d..db8c910 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1742,7 +1742,16 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   }
 
   // Calculate total size of image
-  size_t size = width * height * depth * arraySize * pixelSize;
+  size_t size = pixelSize;
+  for (size_t n : {width, height, depth, arraySize})
+  {
+    if (n && size > SIZE_MAX / n)
+    {
+      SetErrorArg(context, CL_INVALID_IMAGE_SIZE, image_desc);
+      return NULL;
+    }
+    size *= n;
+  }
 
   cl_mem mem;
 
@@ -1756,6 +1765,12 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
                    "when using CL_MEM_OBJECT_IMAGE1D_BUFFER");
       return NULL;
     }
+    if (size > image_desc->buffer->size)
+    {
+      SetErrorInfo(context, CL_INVALID_IMAGE_SIZE,
+                   "Image exceeds size of image_desc->buffer");
+      return NULL;
+    }
     mem = image_desc->buffer;
     clRetainMemObject(image_desc->buffer);
   }
-- 
2.43.0


From e26176f484c07ed7f1a6bc42493eda7c239c419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 027/128] fix: report no host pointer for sub-buffers of
 buffers without one

---
 src/runtime/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index db8c910..a478995 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1591,7 +1591,9 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   mem->offset = region.origin;
   mem->isImage = false;
   mem->flags = memFlags;
-  mem->hostPtr = (unsigned char*)buffer->hostPtr + region.origin;
+  mem->hostPtr = buffer->hostPtr
+                   ? (unsigned char*)buffer->hostPtr + region.origin
+                   : NULL;
   mem->refCount = 1;
   mem->address = buffer->address + region.origin;
   clRetainMemObject(buffer);
-- 
2.43.0


From 44e6884ec4fa7097b23784171d5629cd50038cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 028/128] fix: report blocking commands that were not executed

---
 src/runtime/runtime.cpp | 60 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a478995..f45b3c7 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3859,6 +3859,32 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   return CL_SUCCESS;
 }
 
+namespace
+{
+// Wait for a blocking command, which was not executed if an event in its wait
+// list terminated with an error
+cl_int finishBlockingCommand(cl_command_queue command_queue,
+                             cl_uint num_events_in_wait_list,
+                             const cl_event* event_wait_list)
+{
+  if (auto err = clFinish(command_queue); err != CL_SUCCESS)
+  {
+    return err;
+  }
+  for (cl_uint i = 0; i < num_events_in_wait_list; i++)
+  {
+    if (event_wait_list[i]->event->state < 0)
+    {
+      ReturnErrorInfo(command_queue->context,
+                      CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST,
+                      "Event " << i << " terminated with error "
+                               << event_wait_list[i]->event->state);
+    }
+  }
+  return CL_SUCCESS;
+}
+} // namespace
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_read,
   size_t offset, size_t cb, void* ptr, cl_uint num_events_in_wait_list,
@@ -3910,7 +3936,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return finishBlockingCommand(command_queue, num_events_in_wait_list,
+                                 event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -4011,7 +4038,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return finishBlockingCommand(command_queue, num_events_in_wait_list,
+                                 event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -4068,7 +4096,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return finishBlockingCommand(command_queue, num_events_in_wait_list,
+                                 event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -4169,7 +4198,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return finishBlockingCommand(command_queue, num_events_in_wait_list,
+                                 event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -5004,7 +5034,16 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    if (auto err = finishBlockingCommand(command_queue, num_events_in_wait_list,
+                                         event_wait_list);
+        err != CL_SUCCESS)
+    {
+      if (errcode_ret)
+      {
+        *errcode_ret = err;
+      }
+      return NULL;
+    }
   }
 
   return ptr;
@@ -5112,7 +5151,16 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    if (auto err = finishBlockingCommand(command_queue, num_events_in_wait_list,
+                                         event_wait_list);
+        err != CL_SUCCESS)
+    {
+      if (errcode_ret)
+      {
+        *errcode_ret = err;
+      }
+      return NULL;
+    }
   }
 
   return ptr;
-- 
2.43.0


From a1c2e50ab27211c66ba13b61b5c4b0ca82014760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 029/128] fix: fail cleanly when a memory object cannot be
 allocated

---
 src/core/Memory.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index ab99bc2..b2ba360 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -12,6 +12,7 @@
 #include <cmath>
 #include <cstring>
 #include <mutex>
+#include <new>
 
 #include "Context.h"
 #include "Memory.h"
@@ -54,10 +55,17 @@ size_t Memory::allocateBuffer(size_t size, cl_mem_flags flags,
     return 0;
   }
 
+  unsigned char* data = new (std::nothrow) unsigned char[size];
+  if (!data)
+  {
+    return 0;
+  }
+
   // Find first unallocated buffer slot
   unsigned b = getNextBuffer();
   if (b >= m_maxNumBuffers)
   {
+    delete[] data;
     return 0;
   }
 
@@ -65,7 +73,7 @@ size_t Memory::allocateBuffer(size_t size, cl_mem_flags flags,
   Buffer* buffer = new Buffer;
   buffer->size = size;
   buffer->flags = flags;
-  buffer->data = new unsigned char[size];
+  buffer->data = data;
 
   if (b >= m_memory.size())
   {
-- 
2.43.0


From c90e0cc6e0e159d42f2d67e07e065fd9a6a2c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 030/128] fix: reject kernel arguments that are not objects of
 the declared kind

---
 src/runtime/runtime.cpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f45b3c7..fd86991 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3179,15 +3179,42 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
                                    << " bytes");
   }
 
+  if (isSampler && arg_size != sizeof(cl_sampler))
+  {
+    ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
+  }
+
+  if (isSampler && (!arg_value || !*(cl_sampler*)arg_value))
+  {
+    ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
+  }
+
   if (addr == CL_KERNEL_ARG_ADDRESS_PRIVATE && !isSampler && !arg_value)
   {
     ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
                     "arg_value cannot be NULL");
   }
 
+  // Check that memory objects are of the kind that the kernel expects
+  if (addr == CL_KERNEL_ARG_ADDRESS_GLOBAL ||
+      addr == CL_KERNEL_ARG_ADDRESS_CONSTANT)
+  {
+    llvm::StringRef type = kernel->kernel->getArgumentTypeName(arg_index);
+    bool isImage = type.starts_with("image") && type.ends_with("_t");
+    cl_mem mem = arg_value ? *(cl_mem*)arg_value : NULL;
+    if (isImage ? (!mem || !mem->isImage) : (mem && mem->isImage))
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_MEM_OBJECT,
+                      "Argument should be " << (isImage ? "an image"
+                                                        : "a buffer"));
+    }
+  }
+
   // Prepare argument value
   oclgrind::TypedValue value;
-  value.data = new unsigned char[arg_size];
+  value.data = NULL;
+  if (addr != CL_KERNEL_ARG_ADDRESS_LOCAL)
+    value.data = new unsigned char[arg_size];
   value.size = arg_size;
   value.num = 1;
   switch (addr)
@@ -3195,15 +3222,6 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   case CL_KERNEL_ARG_ADDRESS_PRIVATE:
     if (isSampler)
     {
-      if (!arg_value)
-      {
-        ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
-        return CL_INVALID_SAMPLER;
-      }
-      if (arg_size != sizeof(cl_sampler))
-      {
-        ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
-      }
       memcpy(value.data, &(*(cl_sampler*)arg_value)->sampler, 4);
     }
     else
@@ -3212,8 +3230,6 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
     }
     break;
   case CL_KERNEL_ARG_ADDRESS_LOCAL:
-    delete[] value.data;
-    value.data = NULL;
     break;
   case CL_KERNEL_ARG_ADDRESS_GLOBAL:
   case CL_KERNEL_ARG_ADDRESS_CONSTANT:
-- 
2.43.0


From 252a05c238f9a80506d6893e0eba9752a9d406ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 031/128] fix: check the total local memory and the work-group
 size required in all dimensions

---
 src/core/Kernel.cpp     |  3 +++
 src/runtime/runtime.cpp | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 84af079..d3dc736 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -380,7 +380,10 @@ size_t Kernel::getLocalMemorySize() const
     const llvm::Type* type = value->first->getType();
     if (type->isPointerTy() && type->getPointerAddressSpace() == AddrSpaceLocal)
     {
+      // Saturate on overflow
       sz += value->second.size;
+      if (sz < value->second.size)
+        return SIZE_MAX;
     }
   }
   return sz;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fd86991..e844d31 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5329,6 +5329,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
                         << "]=" << reqdWorkGroupSize[i])
     }
   }
+  for (unsigned i = work_dim; i < 3; i++)
+  {
+    if (reqdWorkGroupSize[i] > 1)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "reqd_work_group_size["
+                        << i << "]=" << reqdWorkGroupSize[i]
+                        << " exceeds the dimensions of the kernel");
+    }
+  }
   if (totalWGSize > m_device->maxWGSize)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
-- 
2.43.0


From aab84668ce842cd44804250628e309f4fb91033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 032/128] fix: reject missing program sources, binaries,
 headers and inputs

---
 src/runtime/runtime.cpp | 54 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e844d31..c90cae8 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2491,10 +2491,13 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithSource(
     SetErrorArg(context, CL_INVALID_VALUE, count);
     return NULL;
   }
-  if (!strings || !strings[0])
+  for (unsigned i = 0; i < count; i++)
   {
-    SetErrorArg(context, CL_INVALID_VALUE, strings);
-    return NULL;
+    if (!strings || !strings[i])
+    {
+      SetErrorArg(context, CL_INVALID_VALUE, strings);
+      return NULL;
+    }
   }
 
   // Concatenate sources into a single string
@@ -2557,6 +2560,15 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithBinary(
     SetErrorArg(context, CL_INVALID_DEVICE, device_list);
     return NULL;
   }
+  if (!lengths[0] || !binaries[0])
+  {
+    SetErrorInfo(context, CL_INVALID_VALUE, "Empty binary");
+    if (binary_status)
+    {
+      binary_status[0] = CL_INVALID_VALUE;
+    }
+    return NULL;
+  }
 
   // Create program object
   cl_program prog = new _cl_program;
@@ -2727,10 +2739,29 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
 
+  if (num_input_headers > 0 && (!input_headers || !header_include_names))
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                    "num_input_headers >0 but headers are NULL");
+  }
+  if (num_input_headers == 0 && (input_headers || header_include_names))
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                    "num_input_headers == 0 but headers are non-NULL");
+  }
+
   // Prepare headers
   list<oclgrind::Program::Header> headers;
   for (unsigned i = 0; i < num_input_headers; i++)
   {
+    if (!input_headers[i])
+    {
+      ReturnErrorArg(program->context, CL_INVALID_PROGRAM, input_headers);
+    }
+    if (!header_include_names[i])
+    {
+      ReturnErrorArg(program->context, CL_INVALID_VALUE, header_include_names);
+    }
     headers.push_back(
       make_pair(header_include_names[i], input_headers[i]->program));
   }
@@ -2792,10 +2823,27 @@ clLinkProgram(cl_context context, cl_uint num_devices,
     return NULL;
   }
 
+  if (num_input_programs == 0 || !input_programs)
+  {
+    SetErrorInfo(context, CL_INVALID_VALUE, "No input programs");
+    return NULL;
+  }
+
   // Prepare programs
   list<const oclgrind::Program*> programs;
   for (unsigned i = 0; i < num_input_programs; i++)
   {
+    if (!input_programs[i])
+    {
+      SetErrorArg(context, CL_INVALID_PROGRAM, input_programs);
+      return NULL;
+    }
+    if (input_programs[i]->program->getBuildStatus() != CL_BUILD_SUCCESS)
+    {
+      SetErrorInfo(context, CL_INVALID_OPERATION,
+                   "Input program has not been compiled");
+      return NULL;
+    }
     programs.push_back(input_programs[i]->program);
   }
 
-- 
2.43.0


From 34bf18cab22bb17701923e05ca6a525bcac4738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 033/128] fix: reject images without texels

---
 src/runtime/runtime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c90cae8..f0c1a6f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1754,6 +1754,11 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     }
     size *= n;
   }
+  if (!size)
+  {
+    SetErrorArg(context, CL_INVALID_IMAGE_SIZE, image_desc);
+    return NULL;
+  }
 
   cl_mem mem;
 
-- 
2.43.0


From 9ec8ff6ca20748aa1283fde5c95112412145bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 034/128] fix: implement the LLVM intrinsics that integer and
 float code is compiled to

---
 src/core/WorkItemBuiltins.cpp | 178 ++++++++++++++++++++++++++++++++--
 1 file changed, 172 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 3e78d40..ea52a79 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3575,13 +3575,156 @@ class WorkItemBuiltins
 
   DEFINE_BUILTIN(llvm_bswap)
   {
-    uint64_t r = 0;
-    uint64_t value = UARG(0);
-    for (unsigned i = 0; i < result.size; i++)
+    for (unsigned n = 0; n < result.num; n++)
     {
-      r |= ((value >> (i * 8)) & 0xFF) << ((result.size - i - 1) * 8);
+      uint64_t r = 0;
+      uint64_t value = UARGV(0, n);
+      for (unsigned i = 0; i < result.size; i++)
+      {
+        r |= ((value >> (i * 8)) & 0xFF) << ((result.size - i - 1) * 8);
+      }
+      result.setUInt(r, n);
     }
-    result.setUInt(r);
+  }
+
+  DEFINE_BUILTIN(llvm_abs)
+  {
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      int64_t value = SARGV(0, i);
+      result.setUInt(value < 0 ? 0 - (uint64_t)value : value, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_bitreverse)
+  {
+    unsigned width = result.size * 8;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t r = 0;
+      uint64_t value = UARGV(0, i);
+      for (unsigned b = 0; b < width; b++)
+      {
+        r |= ((value >> b) & 1) << (width - b - 1);
+      }
+      result.setUInt(r, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_cttz)
+  {
+    unsigned width = result.size * 8;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t value = UARGV(0, i);
+      unsigned n = 0;
+      while (n < width && !((value >> n) & 1))
+      {
+        n++;
+      }
+      result.setUInt(n, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_funnel_shift)
+  {
+    bool left = fnName.compare(0, 9, "llvm.fshl") == 0;
+    unsigned width = result.size * 8;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t hi = UARGV(0, i);
+      uint64_t lo = UARGV(1, i);
+      unsigned shift = UARGV(2, i) % width;
+      uint64_t r = left ? hi : lo;
+      if (shift)
+      {
+        unsigned lshift = left ? shift : width - shift;
+        r = (hi << lshift) | (lo >> (width - lshift));
+      }
+      result.setUInt(r, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_scmp)
+  {
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      int64_t a = SARGV(0, i);
+      int64_t b = SARGV(1, i);
+      result.setSInt(a < b ? -1 : a > b, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_ucmp)
+  {
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t a = UARGV(0, i);
+      uint64_t b = UARGV(1, i);
+      result.setSInt(a < b ? -1 : a > b, i);
+    }
+  }
+
+  // Compute the exact result of an operation on two integers, as performed by
+  // the llvm.{s,u}{add,sub,mul}.* intrinsics
+  static __int128 exactResult(const std::string& fnName, const TypedValue& a,
+                              const TypedValue& b, unsigned i)
+  {
+    // Name is of the form "llvm.sadd.sat.i32"
+    bool sign = fnName[5] == 's';
+    __int128 _a = sign ? (__int128)a.getSInt(i) : (__int128)a.getUInt(i);
+    __int128 _b = sign ? (__int128)b.getSInt(i) : (__int128)b.getUInt(i);
+    switch (fnName[6])
+    {
+    case 'a':
+      return _a + _b;
+    case 's':
+      return _a - _b;
+    default:
+      // The product of two 64-bit integers always fits, except that of two
+      // large unsigned integers, which wraps to a negative value
+      return (unsigned __int128)_a * (unsigned __int128)_b;
+    }
+  }
+
+  // Get the limits of an integer type
+  static void integerLimits(bool sign, unsigned size, __int128& min,
+                            __int128& max)
+  {
+    unsigned width = size * 8;
+    min = sign ? -((__int128)1 << (width - 1)) : 0;
+    max = ((__int128)1 << (sign ? width - 1 : width)) - 1;
+  }
+
+  DEFINE_BUILTIN(llvm_saturating)
+  {
+    TypedValue a = workItem->getOperand(ARG(0));
+    TypedValue b = workItem->getOperand(ARG(1));
+    __int128 min, max;
+    integerLimits(fnName[5] == 's', result.size, min, max);
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      __int128 r = exactResult(fnName, a, b, i);
+      result.setUInt((uint64_t)(r < min ? min : r > max ? max : r), i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_with_overflow)
+  {
+    TypedValue a = workItem->getOperand(ARG(0));
+    TypedValue b = workItem->getOperand(ARG(1));
+    if (a.num > 1)
+      FATAL_ERROR("Unsupported vector intrinsic: %s", fnName.c_str());
+
+    __int128 min, max;
+    integerLimits(fnName[5] == 's', a.size, min, max);
+    __int128 r = exactResult(fnName, a, b, 0);
+
+    // Result is a structure containing the wrapped value and the overflow bit
+    TypedValue value = {a.size, 1, result.data};
+    value.setUInt((uint64_t)r);
+    result.data[getStructMemberOffset(
+      (const llvm::StructType*)callInst->getType(), 1)] = r < min || r > max;
   }
 
   DEFINE_BUILTIN(llvm_dbg_declare)
@@ -3924,10 +4067,19 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
 
   // LLVM Intrinsics
   ADD_BUILTIN("llvm.assume", llvm_assume, NULL);
+  ADD_PREFIX_BUILTIN("llvm.abs.", llvm_abs, NULL);
+  ADD_PREFIX_BUILTIN("llvm.bitreverse.", llvm_bitreverse, NULL);
   ADD_PREFIX_BUILTIN("llvm.bswap.", llvm_bswap, NULL);
+  ADD_PREFIX_BUILTIN("llvm.copysign.", f2arg, F2ARG(copysign));
+  ADD_PREFIX_BUILTIN("llvm.ctlz.", clz, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ctpop.", u1arg, _popcount_);
+  ADD_PREFIX_BUILTIN("llvm.cttz.", llvm_cttz, NULL);
   ADD_BUILTIN("llvm.dbg.declare", llvm_dbg_declare, NULL);
   ADD_BUILTIN("llvm.dbg.value", llvm_dbg_value, NULL);
-  ADD_PREFIX_BUILTIN("llvm.fabs.f", f1arg, F1ARG(fabs));
+  ADD_PREFIX_BUILTIN("llvm.fabs.", f1arg, F1ARG(fabs));
+  ADD_PREFIX_BUILTIN("llvm.fma.", fma_builtin, NULL);
+  ADD_PREFIX_BUILTIN("llvm.fshl.", llvm_funnel_shift, NULL);
+  ADD_PREFIX_BUILTIN("llvm.fshr.", llvm_funnel_shift, NULL);
   ADD_PREFIX_BUILTIN("llvm.lifetime.start", llvm_lifetime_start, NULL);
   ADD_PREFIX_BUILTIN("llvm.lifetime.end", llvm_lifetime_end, NULL);
   ADD_PREFIX_BUILTIN("llvm.experimental.noalias.scope.decl",
@@ -3936,6 +4088,20 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_PREFIX_BUILTIN("llvm.memmove", llvm_memcpy, NULL);
   ADD_PREFIX_BUILTIN("llvm.memset", llvm_memset, NULL);
   ADD_PREFIX_BUILTIN("llvm.fmuladd", fma_builtin, NULL);
+  ADD_PREFIX_BUILTIN("llvm.maxnum.", fmax_builtin, NULL);
+  ADD_PREFIX_BUILTIN("llvm.minnum.", fmin_builtin, NULL);
+  ADD_PREFIX_BUILTIN("llvm.sadd.sat.", llvm_saturating, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ssub.sat.", llvm_saturating, NULL);
+  ADD_PREFIX_BUILTIN("llvm.uadd.sat.", llvm_saturating, NULL);
+  ADD_PREFIX_BUILTIN("llvm.usub.sat.", llvm_saturating, NULL);
+  ADD_PREFIX_BUILTIN("llvm.sadd.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.smul.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ssub.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.uadd.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.umul.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.usub.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.scmp.", llvm_scmp, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ucmp.", llvm_ucmp, NULL);
   ADD_PREFIX_BUILTIN("llvm.smax", s2arg, _max_<int64_t>);
   ADD_PREFIX_BUILTIN("llvm.smin", s2arg, _min_<int64_t>);
   ADD_PREFIX_BUILTIN("llvm.umax", u2arg, _max_<uint64_t>);
-- 
2.43.0


From 4dc523dcdca9854c513adcf946df3f1e3dbbf6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 035/128] fix: allocate every element of an array alloca

---
 src/core/WorkItem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 6261b58..1b060fd 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -790,7 +790,9 @@ INSTRUCTION(alloc)
   const llvm::Type* type = allocInst->getAllocatedType();
 
   // Perform allocation
-  unsigned size = getTypeSize(type);
+  size_t size = getTypeSize(type);
+  if (allocInst->isArrayAllocation())
+    size *= getOperand(allocInst->getArraySize()).getUInt();
   size_t address = m_privateMemory->allocateBuffer(size);
   if (!address)
     FATAL_ERROR("Insufficient private memory (alloca)");
-- 
2.43.0


From 2d3f5e8538100e79643c94a806cd02c1287d9548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 036/128] fix: keep boolean and other narrow integer values
 within their width

---
 src/core/WorkItem.cpp | 48 +++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 1b060fd..737dbff 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -315,6 +315,18 @@ void WorkItem::execute(const llvm::Instruction* instruction)
   // Execute instruction
   dispatch(instruction, result);
 
+  // Discard bits beyond the width of the result type (e.g. for booleans)
+  const llvm::Type* resultType = instruction->getType();
+  if (resultType->isIntOrIntVectorTy() &&
+      resultType->getScalarSizeInBits() < result.size * 8)
+  {
+    uint64_t mask = (1ULL << resultType->getScalarSizeInBits()) - 1;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      result.setUInt(result.getUInt(i) & mask, i);
+    }
+  }
+
   // Store result
   if (result.size)
   {
@@ -768,6 +780,20 @@ WorkItem::State WorkItem::step()
 #define INSTRUCTION(name)                                                      \
   void WorkItem::name(const llvm::Instruction* instruction, TypedValue& result)
 
+// Get a signed integer operand, which might not fill the bytes that hold it
+static int64_t getSigned(const TypedValue& value, const llvm::Type* type,
+                         unsigned index)
+{
+  int64_t val = value.getSInt(index);
+  unsigned width = type->getScalarSizeInBits();
+  if (width < value.size * 8)
+  {
+    unsigned shift = 64 - width;
+    val = (int64_t)((uint64_t)val << shift) >> shift;
+  }
+  return val;
+}
+
 INSTRUCTION(add)
 {
   TypedValue opA = getOperand(instruction->getOperand(0));
@@ -990,7 +1016,6 @@ INSTRUCTION(fcmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     double a = opA.getFloat(i);
@@ -1038,10 +1063,11 @@ INSTRUCTION(fcmp)
     // Deal with NaN operands
     if (std::isnan(a) || std::isnan(b))
     {
-      r = !llvm::CmpInst::isOrdered(pred);
+      r = llvm::CmpInst::isUnordered(pred) ||
+          pred == llvm::CmpInst::FCMP_TRUE;
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r, i);
   }
 }
 
@@ -1157,14 +1183,15 @@ INSTRUCTION(icmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
+  const llvm::Type* type = instruction->getOperand(0)->getType();
+  bool isInt = type->isIntOrIntVectorTy();
   for (unsigned i = 0; i < result.num; i++)
   {
     // Load operands
     uint64_t ua = opA.getUInt(i);
     uint64_t ub = opB.getUInt(i);
-    int64_t sa = opA.getSInt(i);
-    int64_t sb = opB.getSInt(i);
+    int64_t sa = isInt ? getSigned(opA, type, i) : opA.getSInt(i);
+    int64_t sb = isInt ? getSigned(opB, type, i) : opB.getSInt(i);
 
     uint64_t r;
     switch (pred)
@@ -1203,7 +1230,7 @@ INSTRUCTION(icmp)
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r, i);
   }
 }
 
@@ -1409,12 +1436,7 @@ INSTRUCTION(sext)
   TypedValue value = getOperand(operand);
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t val = value.getSInt(i);
-    if (operand->getType()->getPrimitiveSizeInBits() == 1)
-    {
-      val = val ? -1 : 0;
-    }
-    result.setSInt(val, i);
+    result.setSInt(getSigned(value, operand->getType(), i), i);
   }
 }
 
-- 
2.43.0


From 66e54faf769a1929e4f322e0eab32eba7edb3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 037/128] fix: convert signed integers to float with a single
 rounding

---
 src/core/WorkItem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 737dbff..fea6860 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1487,10 +1487,15 @@ INSTRUCTION(shuffle)
 
 INSTRUCTION(sitofp)
 {
-  TypedValue op = getOperand(instruction->getOperand(0));
+  const llvm::Value* operand = instruction->getOperand(0);
+  TypedValue op = getOperand(operand);
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(op.getSInt(i), i);
+    int64_t in = getSigned(op, operand->getType(), i);
+    if (result.size == 4)
+      result.setFloat((float)in, i);
+    else
+      result.setFloat((double)in, i);
   }
 }
 
-- 
2.43.0


From 6d219a7e9cde99c7518208f1085346e6d2514795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 038/128] fix: make room for merged function counts in the
 instruction counter

---
 src/plugins/InstructionCounter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index df6157b..8c1d48e 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -249,6 +249,10 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
       }
     }
 
+    // The merged index of a function can exceed that used by this work-group
+    if (opcode >= m_instructionCounts.size())
+      m_instructionCounts.resize(opcode + 1);
+
     m_instructionCounts[opcode] += m_state.instCounts->at(i);
   }
 
-- 
2.43.0


From 5aa47a2b085d6b4923a3454fa2279d34c0c8acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 039/128] fix: count the bytes that vector loads and stores
 actually transfer

---
 src/plugins/InstructionCounter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index 8c1d48e..1cb75d5 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -92,20 +92,20 @@ void InstructionCounter::instructionExecuted(
   // Check for loads and stores
   if (opcode == llvm::Instruction::Load || opcode == llvm::Instruction::Store)
   {
-    const llvm::Type* type;
+    const llvm::Value* value;
     unsigned addrSpace;
     if (opcode == llvm::Instruction::Load)
     {
       const llvm::LoadInst* load = ((const llvm::LoadInst*)instruction);
       opcode = COUNTED_LOAD_BASE;
-      type = load->getType();
+      value = load;
       addrSpace = load->getPointerAddressSpace();
     }
     else
     {
       const llvm::StoreInst* store = ((const llvm::StoreInst*)instruction);
       opcode = COUNTED_STORE_BASE;
-      type = store->getValueOperand()->getType();
+      value = store->getValueOperand();
       addrSpace = store->getPointerAddressSpace();
     }
 
@@ -113,7 +113,8 @@ void InstructionCounter::instructionExecuted(
     opcode += addrSpace;
 
     // Count total number of bytes loaded/stored
-    unsigned bytes = getTypeSize(type);
+    pair<unsigned, unsigned> size = getValueSize(value);
+    unsigned bytes = size.first * size.second;
     (*m_state.memopBytes)[opcode - COUNTED_LOAD_BASE] += bytes;
   }
   else if (opcode == llvm::Instruction::Call)
-- 
2.43.0


From d79357980a3762376fd84d6684216f8aace9d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 040/128] fix: keep the initialised state of the rest of a
 buffer when part of it is written

Host stores and maps replaced the shadow of the whole buffer, so that
earlier initialisation was forgotten, writes at an offset were lost, and
a new buffer at a reused address inherited the state of its predecessor.
Allocate the shadow with the buffer and only update the written bytes.
Regions mapped for reading and writing may be written by the host too,
and constant memory is global memory.
---
 src/plugins/Uninitialized.cpp | 76 ++++++++++++++++++-----------------
 src/plugins/Uninitialized.h   | 10 +++--
 2 files changed, 46 insertions(+), 40 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 39de5fc..5aa9f9c 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -27,14 +27,6 @@
 using namespace oclgrind;
 using namespace std;
 
-// void Uninitialized::memoryAllocated(const Memory *memory, size_t address,
-//                                 size_t size, cl_mem_flags flags,
-//                                 const uint8_t *initData)
-//{
-//    cout << "Memory: " << memory << ", address: " << hex << address << dec <<
-//    ", size: " << size << endl;
-//}
-
 // Multiple mutexes to mitigate risk of unnecessary synchronisation in atomics
 #define NUM_ATOMIC_MUTEXES 64 // Must be power of two
 static std::mutex atomicShadowMutex[NUM_ATOMIC_MUTEXES];
@@ -170,8 +162,7 @@ ShadowMemory* Uninitialized::getShadowMemory(unsigned addrSpace,
 
     return shadowContext.getShadowWorkGroup(workGroup)->getLocalMemory();
   }
-  // case AddrSpaceConstant:
-  //    break;
+  case AddrSpaceConstant: // Constant data is allocated in global memory
   case AddrSpaceGlobal:
     return shadowContext.getGlobalMemory();
   default:
@@ -1013,8 +1004,8 @@ void Uninitialized::hostMemoryStore(const Memory* memory, size_t address,
 {
   if (memory->getAddressSpace() == AddrSpaceGlobal)
   {
-    TypedValue v = ShadowContext::getCleanValue(size);
-    allocAndStoreShadowMemory(AddrSpaceGlobal, address, v);
+    // Only the bytes that are written become initialised
+    shadowContext.getGlobalMemory()->fill(address, size, 0);
   }
 }
 
@@ -1824,18 +1815,6 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
         // Global pointer kernel arguments
         // value->second.data == ptr
         // value->second.size == ptr size
-        size_t address = value->second.getPointer();
-
-        if (m_context->getGlobalMemory()->isAddressValid(address) &&
-            !shadowContext.getGlobalMemory()->isAddressValid(address))
-        {
-          // Allocate poisoned global memory if there was no host store
-          size_t size = m_context->getGlobalMemory()->getBuffer(address)->size;
-          allocAndStoreShadowMemory(AddrSpaceGlobal, address,
-                                    ShadowContext::getPoisonedValue(size), NULL,
-                                    NULL, true);
-        }
-
         m_deferredInit.push_back(*value);
         break;
       }
@@ -1910,13 +1889,6 @@ void Uninitialized::loadShadowMemory(unsigned addrSpace, size_t address,
                                      TypedValue& SM, const WorkItem* workItem,
                                      const WorkGroup* workGroup)
 {
-  if (addrSpace == AddrSpaceConstant)
-  {
-    // TODO: Eventually load value
-    memset(SM.data, 0, SM.size * SM.num);
-    return;
-  }
-
   ShadowMemory* memory = getShadowMemory(addrSpace, workItem, workGroup);
   memory->load(SM.data, address, SM.size * SM.num);
 
@@ -1971,13 +1943,33 @@ void Uninitialized::logUninitializedWrite(unsigned int addrSpace,
   msg.send();
 }
 
+void Uninitialized::memoryAllocated(const Memory* memory, size_t address,
+                                    size_t size, cl_mem_flags flags,
+                                    const uint8_t* initData)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    // The shadow covers the whole allocation, replacing any previous shadow
+    shadowContext.getGlobalMemory()->allocate(address, size);
+    shadowContext.getGlobalMemory()->fill(address, size, initData ? 0 : 0xff);
+  }
+}
+
+void Uninitialized::memoryDeallocated(const Memory* memory, size_t address)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    shadowContext.getGlobalMemory()->deallocate(address);
+  }
+}
+
 void Uninitialized::memoryMap(const Memory* memory, size_t address,
                               size_t offset, size_t size, cl_map_flags flags)
 {
-  if (!(flags & CL_MAP_READ))
+  // The host may write to any region that is not mapped for reading only
+  if (flags != CL_MAP_READ)
   {
-    allocAndStoreShadowMemory(memory->getAddressSpace(), address + offset,
-                              ShadowContext::getCleanValue(size));
+    shadowContext.getGlobalMemory()->fill(address + offset, size, 0);
   }
 }
 
@@ -2405,11 +2397,14 @@ void ShadowMemory::deallocate(size_t address)
 {
   size_t index = extractBuffer(address);
 
-  assert(m_map.count(index) && "Cannot deallocate non existing memory!");
+  if (!m_map.count(index))
+  {
+    return;
+  }
 
   delete[] m_map.at(index)->data;
   delete m_map.at(index);
-  m_map.at(index) = NULL;
+  m_map.erase(index);
 }
 
 void ShadowMemory::dump() const
@@ -2444,6 +2439,15 @@ void ShadowMemory::dump() const
   cout << "=======================" << endl;
 }
 
+void ShadowMemory::fill(size_t address, size_t size, unsigned char value)
+{
+  if (isAddressValid(address, size))
+  {
+    memset(m_map.at(extractBuffer(address))->data + extractOffset(address),
+           value, size);
+  }
+}
+
 size_t ShadowMemory::extractBuffer(size_t address) const
 {
   return (address >> m_numBitsAddress);
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 07ccb47..47602aa 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -115,7 +115,9 @@ public:
   virtual ~ShadowMemory();
 
   void allocate(size_t address, size_t size);
+  void deallocate(size_t address);
   void dump() const;
+  void fill(size_t address, size_t size, unsigned char value);
   void* getPointer(size_t address) const;
   bool isAddressValid(size_t address, size_t size = 1) const;
   void load(unsigned char* dst, size_t address, size_t size = 1) const;
@@ -132,7 +134,6 @@ private:
   unsigned m_numBitsBuffer;
 
   void clear();
-  void deallocate(size_t address);
   size_t extractBuffer(size_t address) const;
   size_t extractOffset(size_t address) const;
 };
@@ -272,15 +273,16 @@ public:
                                    const TypedValue& result) override;
   virtual void kernelBegin(const KernelInvocation* kernelInvocation) override;
   virtual void kernelEnd(const KernelInvocation* kernelInvocation) override;
+  virtual void memoryAllocated(const Memory* memory, size_t address,
+                               size_t size, cl_mem_flags flags,
+                               const uint8_t* initData) override;
+  virtual void memoryDeallocated(const Memory* memory, size_t address) override;
   virtual void memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags) override;
   virtual void workItemBegin(const WorkItem* workItem) override;
   virtual void workItemComplete(const WorkItem* workItem) override;
   virtual void workGroupBegin(const WorkGroup* workGroup) override;
   virtual void workGroupComplete(const WorkGroup* workGroup) override;
-  // virtual void memoryAllocated(const Memory *memory, size_t address,
-  //                             size_t size, cl_mem_flags flags,
-  //                             const uint8_t *initData);
 private:
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInit;
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInitGroup;
-- 
2.43.0


From 0962c4d91b8f9489ad1184ba6f9db622e6c434a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 041/128] fix: track the elements of vectors through casts and
 intrinsics

One uninitialised element poisoned the whole result of element-wise
operations such as vector fpext, fptrunc, fmuladd and smax.
---
 src/plugins/Uninitialized.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 5aa9f9c..a0c969a 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1999,18 +1999,28 @@ void Uninitialized::SimpleOr(const WorkItem* workItem,
   ShadowValues* shadowValues =
     shadowContext.getShadowWorkItem(workItem)->getValues();
 
-  for (llvm::Instruction::const_op_iterator OI = I->op_begin();
-       OI != I->op_end(); ++OI)
+  TypedValue newShadow = ShadowContext::getCleanValue(I);
+
+  // Do not include the called function in the operands of a call
+  const llvm::CallInst* CI = llvm::dyn_cast<llvm::CallInst>(I);
+  auto end = CI ? CI->arg_end() : I->op_end();
+  for (auto OI = I->op_begin(); OI != end; ++OI)
   {
-    if (!ShadowContext::isCleanValue(
-          shadowContext.getValue(workItem, OI->get())))
+    TypedValue shadow = shadowContext.getValue(workItem, OI->get());
+
+    if (shadow.num == newShadow.num)
     {
-      shadowValues->setValue(I, ShadowContext::getPoisonedValue(I));
-      return;
+      // Element-wise dependency
+      ShadowContext::shadowOr(newShadow, shadow);
+    }
+    else if (!ShadowContext::isCleanValue(shadow))
+    {
+      newShadow = ShadowContext::getPoisonedValue(I);
+      break;
     }
   }
 
-  shadowValues->setValue(I, ShadowContext::getCleanValue(I));
+  shadowValues->setValue(I, newShadow);
 }
 
 void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
-- 
2.43.0


From ae8cc11484a02117658b16528c9c1e7b485cc850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 042/128] fix: propagate uninitialised arguments through
 builtin functions

Passing an uninitialised value to a builtin such as sin or max was
reported as control flow depending on it, even if the result was never
used, while the result was then considered initialised.
---
 src/plugins/Uninitialized.cpp | 45 +++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index a0c969a..1578da3 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -581,6 +581,37 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     shadowValues->setValue(CI, ShadowContext::getPoisonedValue(result.size));
     return true;
   }
+  else if (name == "cross")
+  {
+    // Each of the first three elements depends on the other two
+    TypedValue newShadow = ShadowContext::getCleanValue(result);
+    for (unsigned i = 0; i < 3; ++i)
+    {
+      for (unsigned j = 1; j < 3; ++j)
+      {
+        for (const auto& arg : CI->args())
+        {
+          TypedValue shadow = shadowContext.getValue(workItem, arg);
+          if (!ShadowContext::isCleanValue(shadow, (i + j) % 3))
+          {
+            memset(newShadow.data + i * newShadow.size, 0xff, newShadow.size);
+          }
+        }
+      }
+    }
+
+    shadowValues->setValue(CI, newShadow);
+    return true;
+  }
+  else if (name == "normalize" || name == "fast_normalize")
+  {
+    // Every element depends on all elements of the argument
+    TypedValue shadow = shadowContext.getValue(workItem, CI->getArgOperand(0));
+    shadowValues->setValue(CI, ShadowContext::isCleanValue(shadow)
+                                 ? ShadowContext::getCleanValue(result)
+                                 : ShadowContext::getPoisonedValue(result));
+    return true;
+  }
   else if (name == "select")
   {
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
@@ -1133,6 +1164,20 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
                                  result))
       {
         // Handle external function calls
+        bool pure = callInst->getType()->isSized();
+        for (const auto& arg : callInst->args())
+        {
+          if (arg->getType()->isPointerTy())
+            pure = false;
+        }
+
+        if (pure)
+        {
+          // The result is a function of the arguments
+          SimpleOr(workItem, instruction);
+          break;
+        }
+
         checkAllOperandsDefined(workItem, instruction);
 
         if (callInst->getType()->isSized())
-- 
2.43.0


From a5afde6b4b6cc532f68a38e5d8d87231b1310e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 043/128] fix: any() is only initialised if its result is
 determined by initialised elements

---
 src/plugins/Uninitialized.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 1578da3..48f11c0 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -569,16 +569,25 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       num = llvm::cast<llvm::FixedVectorType>(argType)->getNumElements();
     }
 
+    // An initialised element that is set determines the result
+    TypedValue arg = workItem->getOperand(argOp);
+    bool clean = true;
     for (unsigned i = 0; i < num; ++i)
     {
-      if (ShadowContext::isCleanValue(shadow, i))
+      if (!ShadowContext::isCleanValue(shadow, i))
       {
-        shadowValues->setValue(CI, ShadowContext::getCleanValue(result.size));
-        return true;
+        clean = false;
+      }
+      else if (arg.data[(i + 1) * arg.size - 1] & 0x80)
+      {
+        clean = true;
+        break;
       }
     }
 
-    shadowValues->setValue(CI, ShadowContext::getPoisonedValue(result.size));
+    shadowValues->setValue(CI, clean
+                                 ? ShadowContext::getCleanValue(result.size)
+                                 : ShadowContext::getPoisonedValue(result.size));
     return true;
   }
   else if (name == "cross")
-- 
2.43.0


From 6bd5054ac3073f1e94c7683479d5d2a92f4683c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 044/128] fix: wrap shuffle() mask elements by the number of
 source elements

---
 src/plugins/Uninitialized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 48f11c0..c875207 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -502,7 +502,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       }
       else
       {
-        size_t srcOffset = (mask.getUInt(i) % shadow.size) * shadow.size;
+        size_t srcOffset = (mask.getUInt(i) % shadow.num) * shadow.size;
         memcpy(newShadow.data + i * newShadow.size, shadow.data + srcOffset,
                newShadow.size);
       }
-- 
2.43.0


From 67e5551c09856912a31123a340b2b0cd5393a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 045/128] fix: track the elements of vector shift amounts and
 select conditions

One uninitialised element poisoned every element of the result.
---
 src/plugins/Uninitialized.cpp | 100 ++++++++++++++--------------------
 1 file changed, 41 insertions(+), 59 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index c875207..62bd6ca 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1094,26 +1094,21 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = ShadowContext::getPoisonedValue(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      if (ShadowContext::isCleanValue(S1, i))
       {
         newShadow.setUInt(S0.getSInt(i) >> (Shift.getUInt(i) & shiftMask), i);
       }
-
-      shadowValues->setValue(instruction, newShadow);
     }
 
+    shadowValues->setValue(instruction, newShadow);
+
     break;
   }
   case llvm::Instruction::BitCast:
@@ -1505,26 +1500,21 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = ShadowContext::getPoisonedValue(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      if (ShadowContext::isCleanValue(S1, i))
       {
         newShadow.setUInt(S0.getUInt(i) >> (Shift.getUInt(i) & shiftMask), i);
       }
-
-      shadowValues->setValue(instruction, newShadow);
     }
 
+    shadowValues->setValue(instruction, newShadow);
+
     break;
   }
   case llvm::Instruction::Mul:
@@ -1604,28 +1594,25 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue opCondition = workItem->getOperand(selectInst->getCondition());
     TypedValue conditionShadow =
       shadowContext.getValue(workItem, selectInst->getCondition());
-    TypedValue newShadow;
+    TypedValue newShadow = ShadowContext::getPoisonedValue(result);
 
-    if (!ShadowContext::isCleanValue(conditionShadow))
+    for (unsigned i = 0; i < result.num; i++)
     {
-      newShadow = ShadowContext::getPoisonedValue(instruction);
-    }
-    else
-    {
-      newShadow = shadowContext.getMemoryPool()->clone(result);
+      const unsigned c =
+        selectInst->getCondition()->getType()->isVectorTy() ? i : 0;
 
-      for (unsigned i = 0; i < result.num; i++)
+      if (!ShadowContext::isCleanValue(conditionShadow, c))
       {
-        const bool cond = selectInst->getCondition()->getType()->isVectorTy()
-                            ? opCondition.getUInt(i)
-                            : opCondition.getUInt();
-        const llvm::Value* op =
-          cond ? selectInst->getTrueValue() : selectInst->getFalseValue();
-
-        memcpy(newShadow.data + i * newShadow.size,
-               shadowContext.getValue(workItem, op).data + i * newShadow.size,
-               newShadow.size);
+        continue;
       }
+
+      const llvm::Value* op = opCondition.getUInt(c)
+                                ? selectInst->getTrueValue()
+                                : selectInst->getFalseValue();
+
+      memcpy(newShadow.data + i * newShadow.size,
+             shadowContext.getValue(workItem, op).data + i * newShadow.size,
+             newShadow.size);
     }
 
     shadowValues->setValue(instruction, newShadow);
@@ -1658,26 +1645,21 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = ShadowContext::getPoisonedValue(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      if (ShadowContext::isCleanValue(S1, i))
       {
         newShadow.setUInt(S0.getUInt(i) << (Shift.getUInt(i) & shiftMask), i);
       }
-
-      shadowValues->setValue(instruction, newShadow);
     }
 
+    shadowValues->setValue(instruction, newShadow);
+
     break;
   }
   case llvm::Instruction::ShuffleVector:
-- 
2.43.0


From 873a3a9f47140ab198f6a9a26c2360fa83e61b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 046/128] fix: recognise undefined shufflevector mask elements

The mask was compared with an unrelated constant, so that a shadow value
from before the vector was read for an undefined element, and an element
with the index of that constant was considered uninitialised.
---
 src/plugins/Uninitialized.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 62bd6ca..7a1804a 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1676,11 +1676,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     for (unsigned i = 0; i < newShadow.num; i++)
     {
       int index = shuffleInst->getMaskValue(i);
-#if LLVM_VERSION >= 210
-      if (index == llvm::PoisonMaskElem)
-#else
-      if (index == llvm::Value::UndefValueVal)
-#endif
+      if (index < 0)
       {
         // Undef value are poisoned
         memcpy(newShadow.data + i * newShadow.size, pv.data, newShadow.size);
-- 
2.43.0


From c6d454db09a66a048712405967a8003f403d4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 047/128] fix: evaluate the shadows of PHI nodes before
 assigning any of them

Values exchanged by two PHI nodes of a loop lost their state.
---
 src/plugins/Uninitialized.cpp | 17 ++++++++++++++++-
 src/plugins/Uninitialized.h   | 14 ++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 7a1804a..e568d6a 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1061,6 +1061,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   ShadowWorkItem* shadowWorkItem = shadowContext.getShadowWorkItem(workItem);
   ShadowValues* shadowValues = shadowWorkItem->getValues();
 
+  if (instruction->getOpcode() != llvm::Instruction::PHI)
+  {
+    shadowValues->commitPhis();
+  }
+
   switch (instruction->getOpcode())
   {
   case llvm::Instruction::Add:
@@ -1534,7 +1539,8 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       phiNode->getIncomingValueForBlock(workItem->getPreviousBlock());
     TypedValue shadowValue = shadowContext.getValue(workItem, value);
 
-    shadowValues->setValue(instruction, shadowValue);
+    // All PHI nodes of a block are evaluated before any of them is assigned
+    shadowValues->setPhi(instruction, shadowValue);
     break;
   }
   case llvm::Instruction::PtrToInt:
@@ -2338,6 +2344,15 @@ TypedValue ShadowFrame::getValue(const llvm::Value* V) const
   }
 }
 
+void ShadowFrame::commitPhis()
+{
+  for (const auto& phi : m_phis)
+  {
+    setValue(phi.first, phi.second);
+  }
+  m_phis.clear();
+}
+
 void ShadowFrame::setValue(const llvm::Value* V, TypedValue SV)
 {
 #ifdef DUMP_SHADOW
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 47602aa..c80ed88 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -27,6 +27,7 @@ public:
   ShadowFrame();
   virtual ~ShadowFrame();
 
+  void commitPhis();
   void dump() const;
   inline const llvm::CallInst* getCall() const
   {
@@ -41,12 +42,17 @@ public:
   {
     m_call = CI;
   }
+  inline void setPhi(const llvm::Value* V, TypedValue SV)
+  {
+    m_phis.push_back({V, SV});
+  }
   void setValue(const llvm::Value* V, TypedValue SV);
 
 private:
   typedef std::list<const llvm::Value*> ValuesList;
 
   const llvm::CallInst* m_call;
+  std::vector<std::pair<const llvm::Value*, TypedValue>> m_phis;
   UnorderedTypedValueMap* m_values;
 #ifdef DUMP_SHADOW
   ValuesList* m_valuesList;
@@ -60,6 +66,10 @@ public:
   virtual ~ShadowValues();
 
   ShadowFrame* createCleanShadowFrame();
+  inline void commitPhis()
+  {
+    m_stack->top()->commitPhis();
+  }
   inline void dump() const
   {
     m_stack->top()->dump();
@@ -90,6 +100,10 @@ public:
   {
     m_stack->top()->setCall(CI);
   }
+  inline void setPhi(const llvm::Value* V, TypedValue SV)
+  {
+    m_stack->top()->setPhi(V, SV);
+  }
   inline void setValue(const llvm::Value* V, TypedValue SV)
   {
     m_stack->top()->setValue(V, SV);
-- 
2.43.0


From caf3c0b975bd4891f586dfa4e96427b0b781c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 048/128] fix: cover every element of an array allocation with
 shadow memory

---
 src/plugins/Uninitialized.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index e568d6a..5f9b84e 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1082,8 +1082,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     shadowValues->setValue(instruction,
                            ShadowContext::getCleanValue(instruction));
 
-    TypedValue v =
-      ShadowContext::getPoisonedValue(allocaInst->getAllocatedType());
+    size_t size = getTypeSize(allocaInst->getAllocatedType());
+    if (allocaInst->isArrayAllocation())
+      size *= workItem->getOperand(allocaInst->getArraySize()).getUInt();
+
+    TypedValue v = ShadowContext::getPoisonedValue(size);
     allocAndStoreShadowMemory(AddrSpacePrivate, address, v, workItem);
     break;
   }
-- 
2.43.0


From 4f06c9bea4a8d85936d5264ccd8d9728b804cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 049/128] fix: track uninitialised values through all supported
 intrinsics

Kernels using llvm.memmove, llvm.abs, llvm.fshl, llvm.ctlz and other
intrinsics that the interpreter supports were aborted.
---
 src/plugins/Uninitialized.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 5f9b84e..2979893 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -945,18 +945,10 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
 {
   switch (I->getIntrinsicID())
   {
-  case llvm::Intrinsic::fmuladd:
-  case llvm::Intrinsic::smax:
-  case llvm::Intrinsic::smin:
-  case llvm::Intrinsic::umax:
-  case llvm::Intrinsic::umin:
-  {
-    SimpleOr(workItem, I);
-    break;
-  }
   case llvm::Intrinsic::memcpy:
+  case llvm::Intrinsic::memmove:
   {
-    const llvm::MemCpyInst* memcpyInst = (const llvm::MemCpyInst*)I;
+    const llvm::MemTransferInst* memcpyInst = (const llvm::MemTransferInst*)I;
     const llvm::Value* dstOp = memcpyInst->getDest();
     const llvm::Value* srcOp = memcpyInst->getSource();
     size_t dst = workItem->getOperand(dstOp).getPointer();
@@ -985,12 +977,6 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     }
     break;
   }
-  case llvm::Intrinsic::bswap:
-  {
-    // TODO: byte-level accuracy
-    SimpleOr(workItem, I);
-    break;
-  }
   case llvm::Intrinsic::memset:
   {
     const llvm::MemSetInst* memsetInst = (const llvm::MemSetInst*)I;
@@ -1018,6 +1004,9 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     }
     break;
   }
+  case llvm::Intrinsic::assume:
+    // Do nothing
+    break;
   case llvm::Intrinsic::dbg_declare:
     // Do nothing
     break;
@@ -1034,8 +1023,13 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     // Do nothing
     break;
   default:
-    FATAL_ERROR("Unsupported intrinsic %s",
-                llvm::Intrinsic::getName(I->getIntrinsicID()).data());
+    // The result is a function of the arguments
+    // TODO: byte-level accuracy
+    if (I->getType()->isSized())
+    {
+      SimpleOr(workItem, I);
+    }
+    break;
   }
 }
 
-- 
2.43.0


From d393ec281c110f3d5cac4a794fab97c083486ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 050/128] fix: track both results of builtins with a pointer
 argument element-wise

fract, modf, sincos, frexp, lgamma_r and remquo aborted the kernel if
the pointer was not to global memory, used the state of the last element
for the first element only, and stored shadows of the wrong size for
double and vector types.
---
 src/plugins/Uninitialized.cpp | 114 +++++-----------------------------
 1 file changed, 17 insertions(+), 97 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 2979893..cf609cf 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -365,114 +365,34 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       return true;
     }
   }
-  else if (name == "fract" || name == "modf" || name == "sincos")
+  else if (name == "fract" || name == "modf" || name == "sincos" ||
+           name == "frexp" || name == "lgamma_r" || name == "remquo")
   {
-    const llvm::Value* Addr = CI->getArgOperand(1);
-    unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
-    size_t iptr = workItem->getOperand(Addr).getPointer();
-    TypedValue argShadow =
-      shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newElemShadow;
-    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-
-    for (unsigned i = 0; i < result.num; ++i)
-    {
-      if (!ShadowContext::isCleanValue(argShadow, i))
-      {
-        newElemShadow = ShadowContext::getPoisonedValue(result.size);
-      }
-      else
-      {
-        newElemShadow = ShadowContext::getCleanValue(result.size);
-      }
-
-      memcpy(newShadow.data, newElemShadow.data, result.size);
-    }
-
-    storeShadowMemory(addrSpace, iptr, newShadow);
-    shadowValues->setValue(CI, newShadow);
-
-    // Check shadow of address
-    TypedValue addrShadow = shadowContext.getValue(workItem, Addr);
-
-    if (!ShadowContext::isCleanValue(addrShadow))
-    {
-      logUninitializedAddress(addrSpace, iptr);
-    }
-
-    return true;
-  }
-  else if (name == "frexp" || name == "lgamma_r")
-  {
-    const llvm::Value* Addr = CI->getArgOperand(1);
+    // The last argument points to the second result
+    unsigned numArgs = name == "remquo" ? 2 : 1;
+    const llvm::Value* Addr = CI->getArgOperand(numArgs);
     unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
     size_t iptr = workItem->getOperand(Addr).getPointer();
-    TypedValue argShadow =
-      shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newElemShadow;
-    TypedValue newElemIntShadow;
-    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-    TypedValue newIntShadow = {newShadow.size, newShadow.num,
-                               shadowContext.getMemoryPool()->alloc(4)};
 
-    for (unsigned i = 0; i < result.num; ++i)
+    TypedValue newShadow = ShadowContext::getCleanValue(result);
+    for (unsigned i = 0; i < numArgs; ++i)
     {
-      if (!ShadowContext::isCleanValue(argShadow, i))
-      {
-        newElemShadow = ShadowContext::getPoisonedValue(result.size);
-        newElemIntShadow = ShadowContext::getPoisonedValue(4);
-      }
-      else
-      {
-        newElemShadow = ShadowContext::getCleanValue(result.size);
-        newElemIntShadow = ShadowContext::getCleanValue(4);
-      }
-
-      memcpy(newIntShadow.data, newElemIntShadow.data, 4);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      ShadowContext::shadowOr(
+        newShadow, shadowContext.getValue(workItem, CI->getArgOperand(i)));
     }
 
-    storeShadowMemory(addrSpace, iptr, newIntShadow);
-    shadowValues->setValue(CI, newShadow);
-
-    // Check shadow of address
-    TypedValue addrShadow = shadowContext.getValue(workItem, Addr);
-
-    if (!ShadowContext::isCleanValue(addrShadow))
-    {
-      logUninitializedAddress(addrSpace, iptr);
-    }
-
-    return true;
-  }
-  else if (name == "remquo")
-  {
-    const llvm::Value* Addr = CI->getArgOperand(2);
-    unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
-    size_t iptr = workItem->getOperand(Addr).getPointer();
-    TypedValue arg0Shadow =
-      shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue arg1Shadow =
-      shadowContext.getValue(workItem, CI->getArgOperand(1));
-    TypedValue newElemShadow;
-    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-
+    bool integer = name == "frexp" || name == "lgamma_r" || name == "remquo";
+    unsigned elemSize = integer ? sizeof(cl_int) : result.size;
+    TypedValue ptrShadow = {
+      elemSize, result.num,
+      shadowContext.getMemoryPool()->alloc(elemSize * result.num)};
     for (unsigned i = 0; i < result.num; ++i)
     {
-      if (!ShadowContext::isCleanValue(arg0Shadow, i) ||
-          !ShadowContext::isCleanValue(arg1Shadow, i))
-      {
-        newElemShadow = ShadowContext::getPoisonedValue(result.size);
-      }
-      else
-      {
-        newElemShadow = ShadowContext::getCleanValue(result.size);
-      }
-
-      storeShadowMemory(addrSpace, iptr + i * 4, newElemShadow);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memset(ptrShadow.data + i * elemSize,
+             ShadowContext::isCleanValue(newShadow, i) ? 0 : 0xff, elemSize);
     }
 
+    storeShadowMemory(addrSpace, iptr, ptrShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
-- 
2.43.0


From 690237726eb447fe3e62e953225261f0ffba83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 051/128] fix: track uninitialised values through all atomic
 operations

atomic_cmpxchg was treated like an arithmetic operation on its compare
operand, the 64-bit atom_ functions were not tracked in memory at all,
and an exchange kept the state of the value that it replaced.
---
 src/plugins/Uninitialized.cpp | 29 ++++++++++++++++-------------
 src/plugins/Uninitialized.h   |  3 ++-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index cf609cf..489e687 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -308,20 +308,21 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     return true;
   }
-  else if (name.compare(0, 6, "atomic") == 0)
+  else if (name.compare(0, 7, "atomic_") == 0 ||
+           name.compare(0, 5, "atom_") == 0)
   {
-    if (name.compare(6, string::npos, "cmpxchg") == 0)
+    if (name == "atomic_cmpxchg" || name == "atom_cmpxchg")
     {
       const llvm::Value* Addr = CI->getArgOperand(0);
       unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
       size_t address = workItem->getOperand(Addr).getPointer();
-      uint32_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
-      uint32_t old = workItem->getOperand(CI).getUInt();
+      uint64_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
+      uint64_t old = result.getUInt();
       TypedValue argShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(2));
       TypedValue cmpShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(1));
-      TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
+      TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
 
       // Check shadow of the condition
       if (!ShadowContext::isCleanValue(cmpShadow))
@@ -361,7 +362,8 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     }
     else
     {
-      SimpleOrAtomic(workItem, CI);
+      SimpleOrAtomic(workItem, CI, result,
+                     name == "atomic_xchg" || name == "atom_xchg");
       return true;
     }
   }
@@ -1979,15 +1981,15 @@ void Uninitialized::SimpleOr(const WorkItem* workItem,
 }
 
 void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
-                                   const llvm::CallInst* CI)
+                                   const llvm::CallInst* CI,
+                                   const TypedValue& result, bool exchange)
 {
   const llvm::Value* Addr = CI->getArgOperand(0);
   unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
   size_t address = workItem->getOperand(Addr).getPointer();
 
-  TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
-
-  TypedValue newShadow = ShadowContext::getCleanValue(4);
+  TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
+  TypedValue newShadow = ShadowContext::getCleanValue(result);
 
   if (addrSpace == AddrSpaceGlobal)
   {
@@ -1996,9 +1998,10 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
 
   loadShadowMemory(addrSpace, address, oldShadow, workItem);
 
-  if (!ShadowContext::isCleanValue(oldShadow))
+  // An exchange does not depend on the old value
+  if (!exchange && !ShadowContext::isCleanValue(oldShadow))
   {
-    newShadow = ShadowContext::getPoisonedValue(4);
+    newShadow = ShadowContext::getPoisonedValue(result);
   }
 
   if (CI->arg_size() > 1)
@@ -2007,7 +2010,7 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     if (!ShadowContext::isCleanValue(argShadow))
     {
-      newShadow = ShadowContext::getPoisonedValue(4);
+      newShadow = ShadowContext::getPoisonedValue(result);
     }
   }
 
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index c80ed88..187400f 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -338,7 +338,8 @@ private:
   void logUninitializedIndex() const;
   void logUninitializedWrite(unsigned int addrSpace, size_t address) const;
   void SimpleOr(const WorkItem* workItem, const llvm::Instruction* I);
-  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI);
+  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI,
+                      const TypedValue& result, bool exchange);
   void storeShadowMemory(unsigned addrSpace, size_t address, TypedValue SM,
                          const WorkItem* workItem = NULL,
                          const WorkGroup* workGroup = NULL,
-- 
2.43.0


From 35dc017edd545e8c9efb316678a3c9ed16be0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 052/128] fix: support all element types of
 async_work_group_copy in the uninitialised value detector

---
 src/plugins/Uninitialized.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 489e687..307d87f 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -192,16 +192,43 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Get size of copy
     unsigned elemSize;
+    unsigned vecwidth = 1;
     char ptrtype = paramTypes[6];
+    if (ptrtype == 'D')
+    {
+      char* typestr;
+      vecwidth = strtol(paramTypes.c_str() + 8, &typestr, 10);
+      if (vecwidth == 3)
+      {
+        vecwidth = 4;
+      }
+      ptrtype = typestr[1];
+    }
     switch (ptrtype)
     {
+    case 'c':
+    case 'h':
+      elemSize = 1;
+      break;
+    case 's':
+    case 't':
+      elemSize = 2;
+      break;
+    case 'f':
     case 'i':
+    case 'j':
       elemSize = 4;
       break;
+    case 'd':
+    case 'l':
+    case 'm':
+      elemSize = 8;
+      break;
     default:
       FATAL_ERROR("Unsupported argument type: %c", ptrtype);
       break;
     }
+    elemSize *= vecwidth;
 
     const llvm::Value* numOp = CI->getArgOperand(arg++);
     uint64_t num = workItem->getOperand(numOp).getUInt();
-- 
2.43.0


From 17ebb1aa2cf552f62b90a9ef7b27619e1ebc6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 053/128] fix: apply the stride of an asynchronous copy to its
 global side only

---
 src/plugins/Uninitialized.cpp | 18 +++++++++++-------
 src/plugins/Uninitialized.h   |  3 ++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 307d87f..5e887cc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -94,14 +94,14 @@ void Uninitialized::copyShadowMemory(unsigned dstAddrSpace, size_t dst,
                                      unsigned size, const WorkItem* workItem,
                                      const WorkGroup* workGroup, bool unchecked)
 {
-  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, size,
+  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, 1, size,
                           workItem, workGroup, unchecked);
 }
 
 void Uninitialized::copyShadowMemoryStrided(
   unsigned dstAddrSpace, size_t dst, unsigned srcAddrSpace, size_t src,
-  size_t num, size_t stride, unsigned size, const WorkItem* workItem,
-  const WorkGroup* workGroup, bool unchecked)
+  size_t num, size_t dstStride, size_t srcStride, unsigned size,
+  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked)
 {
   TypedValue v = {size, 1, new unsigned char[size]};
 
@@ -109,8 +109,8 @@ void Uninitialized::copyShadowMemoryStrided(
   {
     loadShadowMemory(srcAddrSpace, src, v, workItem, workGroup);
     storeShadowMemory(dstAddrSpace, dst, v, workItem, workGroup, unchecked);
-    src += stride * size;
-    dst += stride * size;
+    src += srcStride * size;
+    dst += dstStride * size;
   }
 
   delete[] v.data;
@@ -270,8 +270,12 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       dstAddrSpace = AddrSpaceGlobal;
     }
 
-    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num, stride,
-                            elemSize, workItem);
+    // The stride applies to the global side of the copy only
+    size_t dstStride = dstAddrSpace == AddrSpaceGlobal ? stride : 1;
+    size_t srcStride = srcAddrSpace == AddrSpaceGlobal ? stride : 1;
+
+    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num,
+                            dstStride, srcStride, elemSize, workItem);
     shadowValues->setValue(CI, eventShadow);
 
     // Check shadow of src address
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 187400f..765bc95 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -316,7 +316,8 @@ private:
                         bool unchecked = false);
   void copyShadowMemoryStrided(unsigned dstAddrSpace, size_t dst,
                                unsigned srcAddrSpace, size_t src, size_t num,
-                               size_t stride, unsigned size,
+                               size_t dstStride, size_t srcStride,
+                               unsigned size,
                                const WorkItem* workItem = NULL,
                                const WorkGroup* workGroup = NULL,
                                bool unchecked = false);
-- 
2.43.0


From 9fb709b57e46f38c3030fb916cca81d5fc9432b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 054/128] fix: do not read an image description from the shadow
 of an image pointer

The shadow of an image argument is that of a pointer, so that image
functions used whatever followed it in memory and made up reports and
uninitialised results. Check the pixel coordinates and the color instead.
---
 src/plugins/Uninitialized.cpp | 136 +++++++---------------------------
 src/plugins/Uninitialized.h   |   4 -
 2 files changed, 25 insertions(+), 115 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 5e887cc..87f8bee 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -789,104 +789,56 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
   else if (name == "read_imagef" || name == "read_imagei" ||
            name == "read_imageui")
   {
-    Image* image = *(Image**)(workItem->getOperand(CI->getArgOperand(0)).data);
-    TypedValue shadowImage =
-      shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newShadow;
-
     // FIXME: The new shadow should be loaded from memory
-    // and not generated based on the image description
     // However, this currently requires to duplicate all functionality
     // in WorkItemBuiltins.cpp for the image function
     // Has to be changed in combination with the write functions
-    size_t address = image->address;
-
-    if (!ShadowContext::isCleanImage(shadowImage))
-    {
-      newShadow = ShadowContext::getPoisonedValue(result);
-    }
-    else
-    {
-      newShadow = ShadowContext::getCleanValue(result);
-    }
-
-    shadowValues->setValue(CI, newShadow);
-
-    // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    Image* image = *(Image**)(workItem->getOperand(CI->getArgOperand(0)).data);
+    for (const auto& arg : CI->args())
     {
-      logUninitializedAddress(AddrSpaceGlobal, address, false);
+      if (!ShadowContext::isCleanValue(shadowContext.getValue(workItem, arg)))
+      {
+        logUninitializedAddress(AddrSpaceGlobal, image->address, false);
+        break;
+      }
     }
 
+    shadowValues->setValue(CI, ShadowContext::getCleanValue(result));
     return true;
   }
   else if (name == "write_imagef" || name == "write_imagei" ||
            name == "write_imageui")
   {
-    Image* image = *(Image**)(workItem->getOperand(CI->getArgOperand(0)).data);
-    TypedValue shadowImage =
-      shadowContext.getValue(workItem, CI->getArgOperand(0));
-
     // FIXME: The actual shadow of the image should be stored to memory
     // However, this currently requires to duplicate all functionality
     // in WorkItemBuiltins.cpp for the image function
     // Has to be changed in combination with the read functions
-    size_t address = image->address;
-
-    // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    Image* image = *(Image**)(workItem->getOperand(CI->getArgOperand(0)).data);
+    for (unsigned i = 0; i < CI->arg_size(); ++i)
     {
-      logUninitializedAddress(AddrSpaceGlobal, address);
+      if (ShadowContext::isCleanValue(
+            shadowContext.getValue(workItem, CI->getArgOperand(i))))
+      {
+        continue;
+      }
+
+      // The last argument is the color, the others select the pixel
+      if (i + 1 == CI->arg_size())
+        logUninitializedWrite(AddrSpaceGlobal, image->address);
+      else
+        logUninitializedAddress(AddrSpaceGlobal, image->address);
     }
 
     return true;
   }
   else if (name.compare(0, 10, "get_image_") == 0)
   {
+    // The properties of an image are always initialised
     TypedValue shadowImage =
       shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newShadow = {
-      result.size, result.num,
-      shadowContext.getMemoryPool()->alloc(result.size * result.num)};
-
-    if (name == "get_image_array_size")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_array_size);
-    }
-    else if (name == "get_image_dim")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width, 0);
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height, 1);
-
-      if (newShadow.num > 2)
-      {
-        newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth, 2);
-        newShadow.setUInt(0, 3);
-      }
-    }
-    else if (name == "get_image_depth")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth);
-    }
-    else if (name == "get_image_height")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height);
-    }
-    else if (name == "get_image_width")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width);
-    }
-    else if (name == "get_image_channel_order")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->format.image_channel_order);
-    }
-    else if (name == "get_image_channel_data_type")
-    {
-      newShadow.setUInt(
-        ((Image*)shadowImage.data)->format.image_channel_data_type);
-    }
-
-    shadowValues->setValue(CI, newShadow);
+    shadowValues->setValue(CI, ShadowContext::isCleanValue(shadowImage)
+                                 ? ShadowContext::getCleanValue(result)
+                                 : ShadowContext::getPoisonedValue(result));
     return true;
   }
 
@@ -2771,44 +2723,6 @@ TypedValue ShadowContext::getValue(const WorkItem* workItem,
   }
 }
 
-bool ShadowContext::isCleanImage(const TypedValue shadowImage)
-{
-  return (isCleanImageAddress(shadowImage) &&
-          isCleanImageDescription(shadowImage) &&
-          isCleanImageFormat(shadowImage));
-}
-
-bool ShadowContext::isCleanImageAddress(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return ShadowContext::isCleanValue(image->address);
-}
-
-bool ShadowContext::isCleanImageDescription(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  // TODO: image->desc.buffer is currently not checked
-  return (ShadowContext::isCleanValue(image->desc.image_type) &&
-          ShadowContext::isCleanValue(image->desc.image_width) &&
-          ShadowContext::isCleanValue(image->desc.image_height) &&
-          ShadowContext::isCleanValue(image->desc.image_depth) &&
-          ShadowContext::isCleanValue(image->desc.image_array_size) &&
-          ShadowContext::isCleanValue(image->desc.image_row_pitch) &&
-          ShadowContext::isCleanValue(image->desc.image_slice_pitch) &&
-          ShadowContext::isCleanValue(image->desc.num_mip_levels) &&
-          ShadowContext::isCleanValue(image->desc.num_samples));
-}
-
-bool ShadowContext::isCleanImageFormat(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return (ShadowContext::isCleanValue(image->format.image_channel_order) &&
-          ShadowContext::isCleanValue(image->format.image_channel_data_type));
-}
-
 bool ShadowContext::isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                                   const llvm::StructType* structTy)
 {
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 765bc95..fc85771 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -246,10 +246,6 @@ public:
     return llvm::isa<llvm::Constant>(V) || m_globalValues.count(V) ||
            m_workSpace.workItems->at(workItem)->getValues()->hasValue(V);
   }
-  static bool isCleanImage(const TypedValue shadowImage);
-  static bool isCleanImageAddress(const TypedValue shadowImage);
-  static bool isCleanImageDescription(const TypedValue shadowImage);
-  static bool isCleanImageFormat(const TypedValue shadowImage);
   static bool isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                             const llvm::StructType* structTy);
   static bool isCleanValue(unsigned long v);
-- 
2.43.0


From 8ea12da0a062239587f67709d952ecb7a3b87886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 055/128] fix: allow kernels to run in other threads than the
 one that created the context

The memory pool of the uninitialised value detector is local to a thread
and only existed in the thread that created the context.
---
 src/plugins/Uninitialized.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 87f8bee..996c9ac 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -39,13 +39,9 @@ THREAD_LOCAL ShadowContext::WorkSpace ShadowContext::m_workSpace = {NULL, NULL,
 Uninitialized::Uninitialized(const Context* context)
     : Plugin(context), shadowContext(sizeof(size_t) == 8 ? 32 : 16)
 {
-  shadowContext.createMemoryPool();
 }
 
-Uninitialized::~Uninitialized()
-{
-  shadowContext.destroyMemoryPool();
-}
+Uninitialized::~Uninitialized() {}
 
 void Uninitialized::allocAndStoreShadowMemory(unsigned addrSpace,
                                               size_t address, TypedValue SM,
@@ -1722,6 +1718,9 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
 {
   const Kernel* kernel = kernelInvocation->getKernel();
 
+  // The thread that runs the kernel may not have created the context
+  shadowContext.createMemoryPool();
+
   // Initialise kernel arguments and global variables
   for (auto value = kernel->values_begin(); value != kernel->values_end();
        value++)
@@ -1823,6 +1822,7 @@ void Uninitialized::kernelEnd(const KernelInvocation* kernelInvocation)
   m_deferredInit.clear();
   m_deferredInitGroup.clear();
   shadowContext.clearGlobalValues();
+  shadowContext.destroyMemoryPool();
 }
 
 void Uninitialized::loadShadowMemory(unsigned addrSpace, size_t address,
-- 
2.43.0


From c05870ab5a78c7203f553a6a136dbe226388d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 056/128] fix: do not consider uninitialised values initialised
 after a freeze

The optimiser freezes values that it uses as the index of an extracted
vector element or as the second operand of a logical and/or, which hid
the use of an uninitialised value. Let logical and/or only propagate the
bits that are not determined by the other operand.
---
 src/plugins/Uninitialized.cpp | 46 +++++++++++++++++++++++++++++++----
 src/plugins/Uninitialized.h   |  2 ++
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 996c9ac..56f2c6c 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -987,7 +987,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   }
   case llvm::Instruction::And:
   {
-    VectorOr(workItem, instruction);
+    BitwiseAndOr(workItem, instruction, result);
     break;
   }
   case llvm::Instruction::AShr:
@@ -1274,8 +1274,9 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   }
   case llvm::Instruction::Freeze:
   {
-    shadowValues->setValue(instruction,
-                           ShadowContext::getCleanValue(instruction));
+    shadowValues->setValue(
+      instruction,
+      shadowContext.getValue(workItem, instruction->getOperand(0)));
     break;
   }
   case llvm::Instruction::GetElementPtr:
@@ -1427,7 +1428,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   }
   case llvm::Instruction::Or:
   {
-    VectorOr(workItem, instruction);
+    BitwiseAndOr(workItem, instruction, result);
     break;
   }
   case llvm::Instruction::PHI:
@@ -1694,9 +1695,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       shadowContext.getValue(workItem, instruction->getOperand(0));
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
+    bool isBool =
+      instruction->getOperand(0)->getType()->getScalarSizeInBits() == 1;
     for (unsigned i = 0; i < newShadow.num; i++)
     {
-      newShadow.setUInt(shadow.getUInt(i), i);
+      newShadow.setUInt(shadow.getUInt(i) & (isBool ? 1 : UINT64_MAX), i);
     }
 
     shadowValues->setValue(instruction, newShadow);
@@ -1932,6 +1935,39 @@ void Uninitialized::VectorOr(const WorkItem* workItem,
   shadowValues->setValue(I, newShadow);
 }
 
+void Uninitialized::BitwiseAndOr(const WorkItem* workItem,
+                                 const llvm::Instruction* I,
+                                 const TypedValue& result)
+{
+  // An initialised 0 (and) or 1 (or) determines the bit of the result
+  const unsigned char neutral =
+    I->getOpcode() == llvm::Instruction::And ? 0 : 0xff;
+
+  TypedValue V[2], S[2];
+  for (unsigned i = 0; i < 2; ++i)
+  {
+    V[i] = workItem->getOperand(I->getOperand(i));
+    S[i] = shadowContext.getValue(workItem, I->getOperand(i));
+  }
+
+  TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+  for (unsigned i = 0; i < result.size * result.num; ++i)
+  {
+    newShadow.data[i] = (S[0].data[i] & S[1].data[i]) |
+                        (S[0].data[i] & (V[1].data[i] ^ neutral)) |
+                        (S[1].data[i] & (V[0].data[i] ^ neutral));
+
+    // Only the lowest bit of a boolean is used
+    if (I->getType()->getScalarSizeInBits() == 1)
+    {
+      newShadow.data[i] = (newShadow.data[i] & 1) ? 0xff : 0;
+    }
+  }
+
+  shadowContext.getShadowWorkItem(workItem)->getValues()->setValue(I,
+                                                                   newShadow);
+}
+
 void Uninitialized::SimpleOr(const WorkItem* workItem,
                              const llvm::Instruction* I)
 {
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index fc85771..21e51f6 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -334,6 +334,8 @@ private:
   void logUninitializedCF() const;
   void logUninitializedIndex() const;
   void logUninitializedWrite(unsigned int addrSpace, size_t address) const;
+  void BitwiseAndOr(const WorkItem* workItem, const llvm::Instruction* I,
+                    const TypedValue& result);
   void SimpleOr(const WorkItem* workItem, const llvm::Instruction* I);
   void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI,
                       const TypedValue& result, bool exchange);
-- 
2.43.0


From 925c8bf25378392ca2c75907926e7d70705a0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 057/128] fix: initialise the binary type of programs created
 from source

---
 src/core/Program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 29f285d..1854d26 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -137,6 +137,7 @@ Program::Program(const Context* context, const string& source)
   m_buildLog = "";
   m_buildOptions = "";
   m_buildStatus = CL_BUILD_NONE;
+  m_binaryType = CL_PROGRAM_BINARY_TYPE_NONE;
   m_uid = 0;
   m_totalProgramScopeVarSize = 0;
 
-- 
2.43.0


From 726164ccd8e75738fe7bc8065b2ebae05b46d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 058/128] fix: support pointers within the initialisers of
 program-scope aggregates

---
 src/core/Program.cpp |  3 ++-
 src/core/common.cpp  | 23 ++++++++++++++++-------
 src/core/common.h    |  4 +++-
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 1854d26..2f54f44 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -209,7 +209,8 @@ void Program::allocateProgramScopeVars()
       {
         size_t size = getTypeSize(initializer->getType());
         uint8_t* data = new uint8_t[size];
-        getConstantData((uint8_t*)data, (const llvm::Constant*)initializer);
+        getConstantData((uint8_t*)data, (const llvm::Constant*)initializer,
+                        &m_programScopeVars);
         globalMemory->store(data, varptr, size);
         delete[] data;
       }
diff --git a/src/core/common.cpp b/src/core/common.cpp
index 8eba1e3..ef35bd4 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -331,7 +331,8 @@ const char* getAddressSpaceName(unsigned addrSpace)
   }
 }
 
-void getConstantData(unsigned char* data, const llvm::Constant* constant)
+void getConstantData(unsigned char* data, const llvm::Constant* constant,
+                     TypedValueMap* globals)
 {
   if (constant->getValueID() == llvm::Value::UndefValueVal)
   {
@@ -391,7 +392,8 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     unsigned elemSize = getTypeSize(elemType);
     for (unsigned i = 0; i < num; i++)
     {
-      getConstantData(data + i * elemSize, constant->getAggregateElement(i));
+      getConstantData(data + i * elemSize, constant->getAggregateElement(i),
+                      globals);
     }
     break;
   }
@@ -402,18 +404,24 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     unsigned elemSize = getTypeSize(elemType);
     for (unsigned i = 0; i < num; i++)
     {
-      getConstantData(data + i * elemSize, constant->getAggregateElement(i));
+      getConstantData(data + i * elemSize, constant->getAggregateElement(i),
+                      globals);
     }
     break;
   }
   case llvm::Type::PointerTyID:
   {
+    size_t ptr = 0;
     if (constant->getValueID() != llvm::Value::ConstantPointerNullVal)
     {
-      FATAL_ERROR("Unsupported constant pointer value: %d",
-                  constant->getValueID());
+      if (!globals)
+      {
+        FATAL_ERROR("Unsupported constant pointer value: %d",
+                    constant->getValueID());
+      }
+      ptr = resolveConstantPointer(constant, *globals);
     }
-    *(size_t*)data = 0;
+    memcpy(data, &ptr, sizeof(size_t));
     break;
   }
   case llvm::Type::StructTyID:
@@ -422,7 +430,8 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     for (unsigned i = 0; i < num; i++)
     {
       unsigned offset = getStructMemberOffset((const llvm::StructType*)type, i);
-      getConstantData(data + offset, constant->getAggregateElement(i));
+      getConstantData(data + offset, constant->getAggregateElement(i),
+                      globals);
     }
     break;
   }
diff --git a/src/core/common.h b/src/core/common.h
index 40de694..4b36d94 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -169,7 +169,9 @@ void dumpInstruction(std::ostream& out, const llvm::Instruction* instruction);
 const char* getAddressSpaceName(unsigned addrSpace);
 
 // Retrieve the raw data for a constant
-void getConstantData(unsigned char* data, const llvm::Constant* constant);
+// Pointers to other variables are only supported if their addresses are given.
+void getConstantData(unsigned char* data, const llvm::Constant* constant,
+                     TypedValueMap* globals = nullptr);
 
 // Creates an instruction from a constant expression
 llvm::Instruction* getConstExprAsInstruction(const llvm::ConstantExpr* expr);
-- 
2.43.0


From d2259e6cdcb2a8eb3a4a46cf10d05e059ec9352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 059/128] fix: refuse to rebuild programs that have kernels
 attached

---
 src/runtime/icd.h       |  1 +
 src/runtime/runtime.cpp | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index b295360..8ed6406 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -214,6 +214,7 @@ struct _cl_program
   oclgrind::Program* program;
   cl_context context;
   unsigned int refCount;
+  unsigned int numKernels = 0;
 };
 
 struct _cl_kernel
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f0c1a6f..fa5f7e1 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2685,6 +2685,12 @@ CL_API_ENTRY cl_int CL_API_CALL clBuildProgram(
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
 
+  if (program->numKernels > 0)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "There are kernel objects attached to the program");
+  }
+
   // Build program
   bool success = program->program->build(oclgrind::Program::BUILD, options);
 
@@ -2743,6 +2749,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   {
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
+  if (program->numKernels > 0)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "There are kernel objects attached to the program");
+  }
 
   if (num_input_headers > 0 && (!input_headers || !header_include_names))
   {
@@ -3101,6 +3112,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
     return NULL;
   }
 
+  program->numKernels++;
   clRetainProgram(program);
 
   SetError(program->context, CL_SUCCESS);
@@ -3145,6 +3157,7 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
       kernel->refCount = 1;
       kernels[i++] = kernel;
 
+      program->numKernels++;
       clRetainProgram(program);
     }
   }
@@ -3192,6 +3205,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
 
     delete kernel->kernel;
 
+    kernel->program->numKernels--;
     clReleaseProgram(kernel->program);
 
     delete kernel;
@@ -6259,6 +6273,7 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   }
   kernel->refCount = 1;
 
+  kernel->program->numKernels++;
   clRetainProgram(kernel->program);
 
   SetError(nullptr, CL_SUCCESS);
-- 
2.43.0


From 137e113c9273b93a1ae7bc85f6d2bf74d316dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 060/128] fix: apply diagnostic options such as -Werror when
 building programs

---
 src/core/Program.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 2f54f44..e4f437f 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -544,6 +544,14 @@ bool Program::build(BuildType buildType, const char* options,
   clang::CompilerInvocation::CreateFromArgs(*invocation, args,
                                             compiler.getDiagnostics());
   compiler.setInvocation(invocation);
+
+  // Apply diagnostic options (e.g. -Werror) that were just parsed
+  clang::ProcessWarningOptions(compiler.getDiagnostics(),
+                               compiler.getDiagnosticOpts(),
+#if LLVM_VERSION >= 200
+                               *llvm::vfs::getRealFileSystem(),
+#endif
+                               false);
 #endif
 
   // Remap include files
-- 
2.43.0


From 077ed68f8cab9ce7efcab7895fdbb33c200c771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 061/128] fix: do not allocate local memory of kernels whose
 names have this kernel's name as a prefix

---
 src/core/Kernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index d3dc736..8184cec 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -51,7 +51,7 @@ Kernel::Kernel(const Program* program, const llvm::Function* function,
     case AddrSpaceLocal:
     {
       // Check that local memory variable belongs to this kernel
-      if (!itr->getName().starts_with(m_name))
+      if (!itr->getName().starts_with(m_name + "."))
         continue;
 
       // Get size of allocation
-- 
2.43.0


From 4621901730976b1af0eec4994d48329ad759d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 062/128] fix: report link failures through the build log of
 the linked program

---
 src/core/Program.cpp    | 46 ++++++++++++++++++++++++++++++++++-------
 src/runtime/runtime.cpp | 12 +++++------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e4f437f..cb21675 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -20,6 +20,8 @@
 #include "llvm/IR/AssemblyAnnotationWriter.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
+#include "llvm/IR/DiagnosticInfo.h"
+#include "llvm/IR/DiagnosticPrinter.h"
 #include "llvm/IR/InstIterator.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instructions.h"
@@ -719,19 +721,44 @@ Program* Program::createFromPrograms(const Context* context,
                                      list<const Program*> programs,
                                      const char* options)
 {
-  llvm::Module* module =
-    new llvm::Module("oclgrind_linked", *context->getLLVMContext());
+  llvm::LLVMContext& llvmContext = *context->getLLVMContext();
+  auto module = make_unique<llvm::Module>("oclgrind_linked", llvmContext);
   llvm::Linker linker(*module);
 
+  // Redirect diagnostics to the build log
+  string log;
+  auto handler = llvmContext.getDiagnosticHandlerCallBack();
+  auto handlerContext = llvmContext.getDiagnosticContext();
+  llvmContext.setDiagnosticHandlerCallBack(
+    [](const llvm::DiagnosticInfo* info, void* logPtr) {
+      llvm::raw_string_ostream stream(*static_cast<string*>(logPtr));
+      llvm::DiagnosticPrinterRawOStream printer(stream);
+      stream << llvm::LLVMContext::getDiagnosticMessagePrefix(
+                  info->getSeverity())
+             << ": ";
+      info->print(printer);
+      stream << "\n";
+    },
+    &log);
+
   // Link modules
+  bool failed = false;
   list<const Program*>::iterator itr;
-  for (itr = programs.begin(); itr != programs.end(); itr++)
+  for (itr = programs.begin(); itr != programs.end() && !failed; itr++)
   {
     unique_ptr<llvm::Module> m = llvm::CloneModule(*(*itr)->m_module);
-    if (linker.linkInModule(std::move(m)))
-    {
-      return NULL;
-    }
+    failed = linker.linkInModule(std::move(m));
+  }
+
+  llvmContext.setDiagnosticHandlerCallBack(handler, handlerContext);
+
+  if (failed)
+  {
+    Program* program = new Program(context, "");
+    program->m_buildLog = log;
+    program->m_buildOptions = options ? options : "";
+    program->m_buildStatus = CL_BUILD_ERROR;
+    return program;
   }
 
   // Set program binary type
@@ -742,7 +769,10 @@ Program* Program::createFromPrograms(const Context* context,
   }
   setBinaryType(*module, binaryType);
 
-  return new Program(context, module);
+  Program* program = new Program(context, module.release());
+  program->m_buildLog = log;
+  program->m_buildOptions = options ? options : "";
+  return program;
 }
 
 Kernel* Program::createKernel(const string name)
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fa5f7e1..36b3cfe 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2870,12 +2870,6 @@ clLinkProgram(cl_context context, cl_uint num_devices,
     oclgrind::Program::createFromPrograms(context->context, programs, options);
   prog->context = context;
   prog->refCount = 1;
-  if (!prog->program)
-  {
-    SetError(context, CL_INVALID_BINARY);
-    delete prog;
-    return NULL;
-  }
 
   // Fire callback
   if (pfn_notify)
@@ -2885,6 +2879,12 @@ clLinkProgram(cl_context context, cl_uint num_devices,
 
   clRetainContext(context);
 
+  if (prog->program->getBuildStatus() != CL_BUILD_SUCCESS)
+  {
+    SetError(context, CL_LINK_PROGRAM_FAILURE);
+    return prog;
+  }
+
   SetError(context, CL_SUCCESS);
   return prog;
 }
-- 
2.43.0


From 331485fd120db0f08c7e2fc95eeb3d5f2ebcde7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 063/128] fix: keep image arguments alive for clones of
 released kernels

---
 src/runtime/icd.h       |  3 ++-
 src/runtime/runtime.cpp | 21 ++++-----------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 8ed6406..360d310 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -117,6 +117,7 @@
 #include <cstdint>
 #include <list>
 #include <map>
+#include <memory>
 #include <stack>
 #include <vector>
 
@@ -223,7 +224,7 @@ struct _cl_kernel
   oclgrind::Kernel* kernel;
   cl_program program;
   std::map<cl_uint, cl_mem> memArgs;
-  std::vector<oclgrind::Image*> imageArgs;
+  std::vector<std::shared_ptr<oclgrind::Image>> imageArgs;
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 36b3cfe..8244a4b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3196,13 +3196,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
 
   if (--kernel->refCount == 0)
   {
-
-    // Release memory allocated for image arguments
-    for (auto* img : kernel->imageArgs)
-    {
-      delete img;
-    }
-
     delete kernel->kernel;
 
     kernel->program->numKernels--;
@@ -3307,11 +3300,11 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
       if (mem->isImage)
       {
         // Create Image struct
-        oclgrind::Image* image = new oclgrind::Image;
+        auto image = std::make_shared<oclgrind::Image>();
         image->address = mem->address;
         image->format = ((cl_image*)mem)->format;
         image->desc = ((cl_image*)mem)->desc;
-        *(oclgrind::Image**)value.data = image;
+        *(oclgrind::Image**)value.data = image.get();
         // Keep a record of the image struct for releasing it later
         kernel->imageArgs.push_back(image);
       }
@@ -6263,14 +6256,8 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->kernel = new oclgrind::Kernel(*source_kernel->kernel);
   kernel->program = source_kernel->program;
   kernel->memArgs = source_kernel->memArgs;
-  for (auto src_img : source_kernel->imageArgs)
-  {
-    oclgrind::Image* image = new oclgrind::Image;
-    image->address = src_img->address;
-    image->format = src_img->format;
-    image->desc = src_img->desc;
-    kernel->imageArgs.push_back(image);
-  }
+  // The values of image arguments point to the same image structs
+  kernel->imageArgs = source_kernel->imageArgs;
   kernel->refCount = 1;
 
   kernel->program->numKernels++;
-- 
2.43.0


From bd09ff06aac88cbac95053e6428a8053ff4c3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 064/128] fix: recognise image and sampler arguments whose
 types are typedefs

---
 src/core/Kernel.cpp     | 28 +++++++++++++++++++++++++++-
 src/core/Kernel.h       |  3 +++
 src/runtime/runtime.cpp |  6 ++----
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 8184cec..7e218db 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -262,6 +262,32 @@ const llvm::StringRef Kernel::getArgumentTypeName(unsigned int index) const
   return name;
 }
 
+const llvm::StringRef Kernel::getArgumentBaseTypeName(unsigned int index) const
+{
+  const llvm::Metadata* md = getArgumentMetadata("kernel_arg_base_type", index);
+  if (!md)
+  {
+    return getArgumentTypeName(index);
+  }
+  return llvm::dyn_cast<llvm::MDString>(md)->getString();
+}
+
+bool Kernel::isArgumentImage(unsigned int index) const
+{
+  llvm::StringRef name = getArgumentBaseTypeName(index);
+  size_t imgStart = name.find(" image");
+  if (imgStart != llvm::StringRef::npos)
+  {
+    name = name.substr(imgStart + 1);
+  }
+  return name.starts_with("image") && name.ends_with("_t");
+}
+
+bool Kernel::isArgumentSampler(unsigned int index) const
+{
+  return getArgumentBaseTypeName(index) == "sampler_t";
+}
+
 unsigned int Kernel::getArgumentTypeQualifier(unsigned int index) const
 {
   assert(index < getNumArguments());
@@ -432,7 +458,7 @@ void Kernel::setArgument(unsigned int index, TypedValue value)
     delete[] m_values[argument].data;
   }
 
-  if (getArgumentTypeName(index).str() == "sampler_t")
+  if (isArgumentSampler(index))
   {
     // Get an llvm::ConstantInt that represents the sampler value
     llvm::Type* i32 = llvm::Type::getInt32Ty(m_program->getLLVMContext());
diff --git a/src/core/Kernel.h b/src/core/Kernel.h
index 51e5479..4850780 100644
--- a/src/core/Kernel.h
+++ b/src/core/Kernel.h
@@ -42,6 +42,8 @@ public:
   const llvm::StringRef getArgumentName(unsigned int index) const;
   size_t getArgumentSize(unsigned int index) const;
   const llvm::StringRef getArgumentTypeName(unsigned int index) const;
+  bool isArgumentImage(unsigned int index) const;
+  bool isArgumentSampler(unsigned int index) const;
   unsigned int getArgumentTypeQualifier(unsigned int index) const;
   std::string getAttributes() const;
   const llvm::Function* getFunction() const;
@@ -64,6 +66,7 @@ private:
   bool m_requiresUniformWorkGroups;
 
   const llvm::Argument* getArgument(unsigned int index) const;
+  const llvm::StringRef getArgumentBaseTypeName(unsigned int index) const;
   const llvm::Metadata* getArgumentMetadata(std::string name,
                                             unsigned int index) const;
 };
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8244a4b..aacb750 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3227,8 +3227,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   }
 
   unsigned int addr = kernel->kernel->getArgumentAddressQualifier(arg_index);
-  bool isSampler =
-    kernel->kernel->getArgumentTypeName(arg_index) == "sampler_t";
+  bool isSampler = kernel->kernel->isArgumentSampler(arg_index);
 
   if (kernel->kernel->getArgumentSize(arg_index) != arg_size && !isSampler &&
       addr != CL_KERNEL_ARG_ADDRESS_LOCAL)
@@ -3259,8 +3258,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   if (addr == CL_KERNEL_ARG_ADDRESS_GLOBAL ||
       addr == CL_KERNEL_ARG_ADDRESS_CONSTANT)
   {
-    llvm::StringRef type = kernel->kernel->getArgumentTypeName(arg_index);
-    bool isImage = type.starts_with("image") && type.ends_with("_t");
+    bool isImage = kernel->kernel->isArgumentImage(arg_index);
     cl_mem mem = arg_value ? *(cl_mem*)arg_value : NULL;
     if (isImage ? (!mem || !mem->isImage) : (mem && mem->isImage))
     {
-- 
2.43.0


From 084864539b2ea7ad64a46dc9bc8448de6ed2f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 065/128] fix: run destructor callbacks of 1D buffer images,
 and all of them before anything is freed

---
 src/runtime/runtime.cpp | 57 +++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index aacb750..5219402 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1157,17 +1157,18 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseContext(cl_context context)
 
   if (--context->refCount == 0)
   {
-    if (context->properties)
-    {
-      free(context->properties);
-    }
-
+    // The callbacks are called before anything is freed
     while (!context->callbacks.empty())
     {
       pair<void(CL_CALLBACK*)(cl_context, void*), void*> callback =
         context->callbacks.top();
-      callback.first(context, callback.second);
       context->callbacks.pop();
+      callback.first(context, callback.second);
+    }
+
+    if (context->properties)
+    {
+      free(context->properties);
     }
 
     delete context->context;
@@ -1826,6 +1827,7 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   // Create image object wrapper
   cl_image* image = new cl_image;
   *(cl_mem)image = *mem;
+  image->callbacks = {};
   image->isImage = true;
   image->format = *image_format;
   image->desc = *image_desc;
@@ -1948,34 +1950,39 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
 
   if (--memobj->refCount == 0)
   {
+    // The callbacks are called before anything is freed
+    while (!memobj->callbacks.empty())
+    {
+      pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
+        memobj->callbacks.top();
+      memobj->callbacks.pop();
+      callback.first(memobj, callback.second);
+    }
+
     if (memobj->isImage &&
         ((cl_image*)memobj)->desc.image_type == CL_MEM_OBJECT_IMAGE1D_BUFFER)
     {
       clReleaseMemObject(((cl_image*)memobj)->desc.buffer);
     }
+    else if (memobj->parent)
+    {
+      clReleaseMemObject(memobj->parent);
+    }
     else
     {
-      if (memobj->parent)
-      {
-        clReleaseMemObject(memobj->parent);
-      }
-      else
-      {
-        memobj->context->context->getGlobalMemory()->deallocateBuffer(
-          memobj->address);
-        clReleaseContext(memobj->context);
-      }
-
-      while (!memobj->callbacks.empty())
-      {
-        pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
-          memobj->callbacks.top();
-        callback.first(memobj, callback.second);
-        memobj->callbacks.pop();
-      }
+      memobj->context->context->getGlobalMemory()->deallocateBuffer(
+        memobj->address);
+      clReleaseContext(memobj->context);
     }
 
-    delete memobj;
+    if (memobj->isImage)
+    {
+      delete (cl_image*)memobj;
+    }
+    else
+    {
+      delete memobj;
+    }
   }
 
   return CL_SUCCESS;
-- 
2.43.0


From b147d8480592b5c3ff0fb69dd9193b8eaae39f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 066/128] fix: let samplers retain their context and initialise
 their reference count

---
 src/runtime/runtime.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 5219402..1b13288 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2375,6 +2375,8 @@ clCreateSampler(cl_context context, cl_bool normalized_coords,
   sampler->sampler = bitfield;
   sampler->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
@@ -2406,6 +2408,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseSampler(cl_sampler sampler)
 
   if (--sampler->refCount == 0)
   {
+    clReleaseContext(sampler->context);
     delete sampler;
   }
 
@@ -6214,12 +6217,15 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   sampler->addressMode = addressing_mode;
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
+  sampler->refCount = 1;
   if (sampler_properties)
   {
     sampler->properties.assign(sampler_properties,
                                sampler_properties + numProperties);
   }
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
-- 
2.43.0


From ef8b8cf9a5890c5efc5d11103c05ef1042612515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 067/128] fix: let events retain their context

---
 src/runtime/async_queue.cpp | 1 +
 src/runtime/runtime.cpp     | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index ada38bf..a1641f4 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -48,6 +48,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
+  clRetainContext(queue->context);
 
   // Add event to map
   eventMap[cmd] = _event;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 1b13288..8221414 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3732,6 +3732,8 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->event->queue = NULL;
   event->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return event;
 }
@@ -3767,6 +3769,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseEvent(cl_event event)
     {
       delete event->event;
     }
+    clReleaseContext(event->context);
     delete event;
   }
 
-- 
2.43.0


From 50ffc2d03bfa2a170e8ac82440d4a777145ec36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 068/128] fix: keep user events alive while their callbacks are
 called

---
 src/runtime/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8221414..9645454 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3802,12 +3802,14 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
 
   event->event->state = execution_status;
 
-  // Perform callbacks
+  // Perform callbacks, which may release the event
+  clRetainEvent(event);
   list<pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>::iterator itr;
   for (itr = event->callbacks.begin(); itr != event->callbacks.end(); itr++)
   {
     itr->first(event, execution_status, itr->second);
   }
+  clReleaseEvent(event);
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 2b505020aa5ef6f3e8c2ca6da5b94a03706117e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 069/128] fix: do not wait for user events when releasing
 command queues

---
 src/runtime/runtime.cpp | 48 +++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9645454..50123d0 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1307,6 +1307,37 @@ clRetainCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
   return CL_SUCCESS;
 }
 
+namespace
+{
+// Queues without references that have not been deleted yet
+list<cl_command_queue> releasedQueues;
+
+// Execute the remaining commands of released queues and delete the queues,
+// except for those that still wait for user events
+void deleteReleasedQueues()
+{
+  auto itr = releasedQueues.begin();
+  while (itr != releasedQueues.end())
+  {
+    cl_command_queue queue = *itr;
+    if (queue->queue->isBlocked())
+    {
+      itr++;
+      continue;
+    }
+
+    releasedQueues.erase(itr);
+    clFinish(queue);
+    delete queue->queue;
+    clReleaseContext(queue->context);
+    delete queue;
+
+    // Event callbacks may have changed the list
+    itr = releasedQueues.begin();
+  }
+}
+} // namespace
+
 CL_API_ENTRY cl_int CL_API_CALL
 clReleaseCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
 {
@@ -1317,15 +1348,15 @@ clReleaseCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
+  // Releasing a queue performs an implicit flush
+  clFlush(command_queue);
+
   if (--command_queue->refCount == 0)
   {
-    // TODO: Retain/release queue from async thread
-    // TODO: Spec states that this function performs an implicit flush,
-    // so maybe we are OK to delete queue here?
-    clFinish(command_queue);
-    delete command_queue->queue;
-    clReleaseContext(command_queue->context);
-    delete command_queue;
+    // Queues that still wait for user events are deleted when their commands
+    // have been executed
+    releasedQueues.push_back(command_queue);
+    deleteReleasedQueues();
   }
 
   return CL_SUCCESS;
@@ -3811,6 +3842,9 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
   }
   clReleaseEvent(event);
 
+  // Released queues may have been waiting for this event
+  deleteReleasedQueues();
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From 93fa569b29411efc9fa7068c44bd10417c8470e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 070/128] fix: use the right texels for linear filtering
 without an addressing mode

---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index ea52a79..2e0af99 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -947,8 +947,8 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      *c0 = floor(u);
-      *c1 = floor(u) + 1;
+      *c0 = floorf(u - 0.5f);
+      *c1 = *c0 + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
       *c0 = _clamp_<int>(floorf(u - 0.5f), 0, size - 1);
-- 
2.43.0


From 897934ee873730bca112cad99500911bdfe30ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 071/128] fix: saturate fill colours that the image format
 cannot represent

---
 src/runtime/runtime.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 50123d0..7b57efe 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4707,7 +4707,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     {
     case CL_SNORM_INT8:
       ((int8_t*)color)[output] =
-        rint(min(max(((float*)fill_color)[input] * 127.f, -127.f), 128.f));
+        rint(min(max(((float*)fill_color)[input] * 127.f, -128.f), 127.f));
       break;
     case CL_UNORM_INT8:
       ((uint8_t*)color)[output] =
@@ -4729,19 +4729,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
         cl_half_from_float(((float*)fill_color)[input], CL_HALF_RTE);
       break;
     case CL_SIGNED_INT8:
-      ((int8_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int8_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], -128), 127);
       break;
     case CL_SIGNED_INT16:
-      ((int16_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int16_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], -32768), 32767);
       break;
     case CL_SIGNED_INT32:
       ((int32_t*)color)[output] = ((int32_t*)fill_color)[input];
       break;
     case CL_UNSIGNED_INT8:
-      ((uint8_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint8_t*)color)[output] = min(((uint32_t*)fill_color)[input], 255u);
       break;
     case CL_UNSIGNED_INT16:
-      ((uint16_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint16_t*)color)[output] = min(((uint32_t*)fill_color)[input], 65535u);
       break;
     case CL_UNSIGNED_INT32:
       ((uint32_t*)color)[output] = ((uint32_t*)fill_color)[input];
-- 
2.43.0


From e053588eb2a8eaf8bf0273e506f8ec0c0d16a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:14 +0000
Subject: [PATCH 072/128] fix: return positive zero from sign(+0.0)

---
 src/core/WorkItemBuiltins.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 2e0af99..22d12d3 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -423,10 +423,8 @@ class WorkItemBuiltins
       return 0.0;
     if (x > 0.0)
       return 1.0;
-    if (x == -0.0)
-      return -0.0;
     if (x == 0.0)
-      return 0.0;
+      return x;
     if (x < 0.0)
       return -1.0;
     return 0.0;
-- 
2.43.0


From 0a488dc73bb6d33f499e2d59be9720b65e7aa943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:14 +0000
Subject: [PATCH 073/128] fix: reduce arguments of sinpi, cospi and tanpi
 exactly

---
 src/core/WorkItemBuiltins.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 22d12d3..e2e30bf 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2329,7 +2329,18 @@ class WorkItemBuiltins
   }
   static double _cospi_(double x)
   {
-    return (cos(x * M_PI));
+    if (!isfinite(x))
+      return nan("");
+
+    // Reduce the argument exactly before multiplying by pi
+    double r = fabs(fmod(x, 2.0));
+    if (r > 1.0)
+      r = 2.0 - r;
+    if (r < 0.25)
+      return cos(r * M_PI);
+    if (r > 0.75)
+      return -cos((1.0 - r) * M_PI);
+    return sin((0.5 - r) * M_PI);
   }
   static double _exp10_(double x)
   {
@@ -2349,11 +2360,26 @@ class WorkItemBuiltins
   }
   static double _sinpi_(double x)
   {
-    return (sin(x * M_PI));
+    if (!isfinite(x))
+      return nan("");
+
+    // Reduce the argument exactly before multiplying by pi
+    double r = fabs(fmod(x, 2.0));
+    double sign = copysign(1.0, x);
+    if (r == 0.0 || r == 1.0)
+      return copysign(0.0, x);
+    if (r > 1.0)
+    {
+      r -= 1.0;
+      sign = -sign;
+    }
+    if (r > 0.5)
+      r = 1.0 - r;
+    return sign * sin(r * M_PI);
   }
   static double _tanpi_(double x)
   {
-    return (tan(x * M_PI));
+    return _sinpi_(x) / _cospi_(x);
   }
 
   DEFINE_BUILTIN(fma_builtin)
-- 
2.43.0


From 224847477e2f49c6712000f737fef8e687452bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:14 +0000
Subject: [PATCH 074/128] fix: edge cases of fract for zeros and infinities

---
 src/core/WorkItemBuiltins.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index e2e30bf..3f7967d 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2472,6 +2472,16 @@ class WorkItemBuiltins
         r = nan("");
         fl = nan("");
       }
+      else if (std::isinf(x))
+      {
+        r = 0.0;
+        fl = x;
+      }
+      else if (x == 0.0)
+      {
+        r = x;
+        fl = x;
+      }
       else
       {
         if (result.size == 4)
-- 
2.43.0


From 26f36de66ccaa28d8eb1b335a9f074a11c51bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 075/128] fix: sign stored by lgamma_r at poles and large
 negative values

---
 src/core/WorkItemBuiltins.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 3f7967d..641c286 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2546,8 +2546,16 @@ class WorkItemBuiltins
     size_t signp = PARG(1);
     for (unsigned i = 0; i < result.num; i++)
     {
-      double r = lgamma(FARGV(0, i));
-      int32_t s = (tgamma(FARGV(0, i)) < 0 ? -1 : 1);
+      double x = FARGV(0, i);
+      double r = lgamma(x);
+
+      // The gamma function has no sign at its poles, and alternates between
+      // them for negative values
+      int32_t s = 1;
+      if (x == 0.0 || (std::isfinite(x) && x < 0.0 && floor(x) == x))
+        s = 0;
+      else if (std::isfinite(x) && x < 0.0 && fmod(floor(x), 2.0) != 0.0)
+        s = -1;
       memory->store((const unsigned char*)&s, signp + i * 4, 4);
       result.setFloat(r, i);
     }
-- 
2.43.0


From 6500abd630735457fe3978644399dfa1bc59e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 076/128] fix: store seven bits of the quotient in remquo, and
 zero for NaN results

---
 src/core/WorkItemBuiltins.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 641c286..8f4c5f2 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2673,8 +2673,18 @@ class WorkItemBuiltins
       double x = FARGV(0, i);
       double y = FARGV(1, i);
 
-      int32_t quo;
-      double rem = remquo(x, y, &quo);
+      // OpenCL requires the seven low bits of the quotient
+      int32_t quo = 0;
+      double rem = remainder(x, y);
+      if (!std::isnan(rem))
+      {
+        double absy = fabs(y);
+        double t = fmod(fabs(x), 128.0 * absy);
+        double r = remainder(fabs(x), absy);
+        quo = (int32_t)rint(t / absy - r / absy) & 127;
+        if (signbit(x) != signbit(y))
+          quo = -quo;
+      }
       memory->store((const unsigned char*)&quo, quop + i * 4, 4);
       result.setFloat(rem, i);
     }
-- 
2.43.0


From cb16bc52be48f7ee1468e739a18d9f113150f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 077/128] fix: ldexp with a vector and a scalar exponent

---
 src/core/WorkItemBuiltins.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 8f4c5f2..4e5e835 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2534,7 +2534,9 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setFloat(ldexp(FARGV(0, i), SARGV(1, i)), i);
+      // Exponent may be a scalar even if the first argument is a vector
+      unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+      result.setFloat(ldexp(FARGV(0, i), SARGV(1, j)), i);
     }
   }
 
-- 
2.43.0


From f961b476d08c82c0e6f5509c0717b908abecc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 078/128] fix: keep cbrt within two ulps for doubles

---
 src/core/WorkItemBuiltins.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 4e5e835..99e119c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2327,6 +2327,11 @@ class WorkItemBuiltins
   {
     return (atan2(x, y) / M_PI);
   }
+  static double _cbrt_(double x)
+  {
+    // Use extended precision to stay within the error bound for doubles
+    return cbrtl(x);
+  }
   static double _cospi_(double x)
   {
     if (!isfinite(x))
@@ -3970,7 +3975,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("atanh", f1arg, F1ARG(atanh));
   ADD_BUILTIN("atanpi", f1arg, _atanpi_);
   ADD_BUILTIN("atan2pi", f2arg, _atan2pi_);
-  ADD_BUILTIN("cbrt", f1arg, F1ARG(cbrt));
+  ADD_BUILTIN("cbrt", f1arg, _cbrt_);
   ADD_BUILTIN("ceil", f1arg, F1ARG(ceil));
   ADD_BUILTIN("copysign", f2arg, F2ARG(copysign));
   ADD_BUILTIN("cos", f1arg, F1ARG(cos));
-- 
2.43.0


From 091a99cafa82920157246ddc88f0c7a08fa35f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 079/128] fix: do not write past the result of cross for
 three-component vectors

---
 src/core/WorkItemBuiltins.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 99e119c..172b1f6 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -623,7 +623,8 @@ class WorkItemBuiltins
     result.setFloat(u2 * v3 - u3 * v2, 0);
     result.setFloat(u3 * v1 - u1 * v3, 1);
     result.setFloat(u1 * v2 - u2 * v1, 2);
-    result.setFloat(0, 3);
+    if (result.num == 4)
+      result.setFloat(0, 3);
   }
 
   DEFINE_BUILTIN(dot)
-- 
2.43.0


From 0a96a060ed7819c49497458793c2772284736a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 080/128] fix: narrow printf arguments with h and hh length
 modifiers

---
 src/core/WorkItemBuiltins.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 172b1f6..fef1bf2 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3499,6 +3499,8 @@ class WorkItemBuiltins
       if (c == '%')
       {
         unsigned vectorWidth = 1;
+        unsigned numShort = 0; // number of 'h' specifiers
+        bool isLong = false;
         string format = "%";
         while (true)
         {
@@ -3524,9 +3526,14 @@ class WorkItemBuiltins
             continue;
           }
 
-          // Ignore all 'h' specifiers
+          // Values are narrowed explicitly for 'h' and 'hh' specifiers
           if (c == 'h')
+          {
+            numShort++;
             continue;
+          }
+          if (c == 'l')
+            isLong = true;
 
           format += c;
           bool done = false;
@@ -3539,7 +3546,10 @@ class WorkItemBuiltins
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), SARGV(arg, i));
+              int64_t value = SARGV(arg, i);
+              if (numShort > 0 && !isLong)
+                value = (numShort == 1) ? (int16_t)value : (int8_t)value;
+              printf(format.c_str(), value);
             }
             arg++;
             done = true;
@@ -3553,7 +3563,10 @@ class WorkItemBuiltins
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), UARGV(arg, i));
+              uint64_t value = UARGV(arg, i);
+              if (numShort > 0 && !isLong)
+                value = (numShort == 1) ? (uint16_t)value : (uint8_t)value;
+              printf(format.c_str(), value);
             }
             arg++;
             done = true;
-- 
2.43.0


From 86d0579b7d63199032ff869fd4e9cb368dbe576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 081/128] fix: return zero from printf

---
 src/core/WorkItemBuiltins.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index fef1bf2..b60ab4a 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3483,6 +3483,9 @@ class WorkItemBuiltins
   {
     lock_guard<mutex> lck(printfMutex);
 
+    // printf returns zero if it was executed successfully
+    result.setSInt(0);
+
     size_t formatPtr = workItem->getOperand(ARG(0)).getPointer();
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
 
-- 
2.43.0


From 9f729543e95d146ca2dedd65e633912b2a8ddc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:13 +0000
Subject: [PATCH 082/128] fix: do not show lines of the main file for locations
 in headers

---
 src/core/Context.cpp | 3 ++-
 src/core/Program.cpp | 7 +++++++
 src/core/Program.h   | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/Context.cpp b/src/core/Context.cpp
index 485c258..4ccb56c 100644
--- a/src/core/Context.cpp
+++ b/src/core/Context.cpp
@@ -486,7 +486,8 @@ Context::Message::operator<<(const llvm::Instruction* instruction)
 
       // Get source line
       const Program* program = m_kernelInvocation->getKernel()->getProgram();
-      const char* line = program->getSourceLine(lineNumber);
+      const char* line =
+        program->getSourceLine(filename.str(), lineNumber);
       if (line)
       {
         while (isspace(line[0]))
diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index cb21675..1e0ec82 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -947,6 +947,13 @@ const char* Program::getSourceLine(size_t lineNumber) const
   return m_sourceLines[lineNumber - 1].c_str();
 }
 
+const char* Program::getSourceLine(const string& filename,
+                                   size_t lineNumber) const
+{
+  // Only the source code of the main file is available
+  return filename == REMAP_INPUT ? getSourceLine(lineNumber) : NULL;
+}
+
 size_t Program::getNumSourceLines() const
 {
   return m_sourceLines.size();
diff --git a/src/core/Program.h b/src/core/Program.h
index 0270c74..853c62b 100644
--- a/src/core/Program.h
+++ b/src/core/Program.h
@@ -63,6 +63,8 @@ public:
   unsigned int getNumKernels() const;
   const std::string& getSource() const;
   const char* getSourceLine(size_t lineNumber) const;
+  const char* getSourceLine(const std::string& filename,
+                            size_t lineNumber) const;
   size_t getNumSourceLines() const;
   const TypedValue& getProgramScopeVar(const llvm::Value* var) const;
   size_t getTotalProgramScopeVarSize() const;
-- 
2.43.0


From 0afe0ee9a6249deb74b348dc8ef11fd177afb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:13 +0000
Subject: [PATCH 083/128] fix: keep messages of earlier contexts in the log
 file

---
 src/plugins/Logger.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 3f33536..9634a23 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -10,6 +10,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <set>
 
 #include "Logger.h"
 
@@ -29,7 +30,13 @@ Logger::Logger(const Context* context) : Plugin(context)
   const char* logfile = getenv("OCLGRIND_LOG");
   if (logfile)
   {
-    m_log = new ofstream(logfile);
+    // Contexts created later append to the messages of earlier ones
+    lock_guard<mutex> lock(logMutex);
+    static set<string> created;
+    if (created.insert(logfile).second)
+      ofstream create(logfile);
+
+    m_log = new ofstream(logfile, ios::app);
     if (!m_log->good())
     {
       cerr << "Oclgrind: Unable to open log file '" << logfile << "'" << endl;
-- 
2.43.0


From fed736a7c21f08f614a9bd3e42a9d0b632d8859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 084/128] fix: resume work-groups that were switched away from
 at a barrier

---
 src/core/KernelInvocation.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index ac94684..b7b7f6b 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -218,27 +218,26 @@ void KernelInvocation::runWorker(int id)
       }
 
       // Execute work-group
-      workerState.workItem = workerState.workGroup->getNextWorkItem();
-      while (workerState.workItem)
+      while (true)
       {
-        // Run work-item until complete or at barrier
-        while (workerState.workItem->getState() == WorkItem::READY)
-        {
-          workerState.workItem->step();
-        }
-
         // Move to next work-item
         workerState.workItem = workerState.workGroup->getNextWorkItem();
-        if (workerState.workItem)
-          continue;
-
-        // No more work-items in READY state
-        // Check if there are work-items at a barrier
-        if (workerState.workGroup->hasBarrier())
+        if (!workerState.workItem)
         {
+          // No more work-items in READY state
+          // Check if there are work-items at a barrier
+          if (!workerState.workGroup->hasBarrier())
+            break;
+
           // Resume execution
           workerState.workGroup->clearBarrier();
-          workerState.workItem = workerState.workGroup->getNextWorkItem();
+          continue;
+        }
+
+        // Run work-item until complete or at barrier
+        while (workerState.workItem->getState() == WorkItem::READY)
+        {
+          workerState.workItem->step();
         }
       }
 
-- 
2.43.0


From de60d12b23a5535bd26990cc4e9cbb374adebfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 085/128] fix: use the size of remainder work-groups when the
 debugger starts them

---
 src/core/KernelInvocation.cpp | 29 ++++++++++++++++++-----------
 src/core/KernelInvocation.h   |  1 +
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b7b7f6b..159b44b 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -174,6 +174,20 @@ void KernelInvocation::run()
   }
 }
 
+Size3 KernelInvocation::getWorkGroupSize(const Size3& groupID) const
+{
+  Size3 wgsize = m_localSize;
+
+  // Handle remainder work-groups
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (wgsize[i] * (groupID[i] + 1) > m_globalSize[i])
+      wgsize[i] = m_globalSize[i] % wgsize[i];
+  }
+
+  return wgsize;
+}
+
 int KernelInvocation::getWorkerID() const
 {
   return workerState.id;
@@ -204,16 +218,8 @@ void KernelInvocation::runWorker(int id)
           break;
 
         Size3 wgid = m_workGroups[index];
-        Size3 wgsize = m_localSize;
-
-        // Handle remainder work-groups
-        for (unsigned i = 0; i < 3; i++)
-        {
-          if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
-            wgsize[i] = m_globalSize[i] % wgsize[i];
-        }
-
-        workerState.workGroup = new WorkGroup(this, wgid, wgsize);
+        workerState.workGroup =
+          new WorkGroup(this, wgid, getWorkGroupSize(wgid));
         m_context->notifyWorkGroupBegin(workerState.workGroup);
       }
 
@@ -302,7 +308,8 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
     {
       if (group == *pItr)
       {
-        workerState.workGroup = new WorkGroup(this, group);
+        workerState.workGroup =
+          new WorkGroup(this, group, getWorkGroupSize(group));
         m_context->notifyWorkGroupBegin(workerState.workGroup);
         found = true;
 
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index ef03c8e..d116841 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -39,6 +39,7 @@ private:
                    unsigned int workDim, Size3 globalOffset, Size3 globalSize,
                    Size3 localSize);
   virtual ~KernelInvocation();
+  Size3 getWorkGroupSize(const Size3& groupID) const;
   void run();
 
   // Kernel launch parameters
-- 
2.43.0


From 33efc41593855c92bd00f6a8aefd98183127480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 086/128] fix: restore the output format after each debugger
 command

---
 src/plugins/InteractiveDebugger.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index b9b2f1a..b12c07a 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -114,6 +114,10 @@ void InteractiveDebugger::instructionExecuted(
   m_continue = false;
   m_next = false;
 
+  // Commands may change the format of the output stream
+  ios format(NULL);
+  format.copyfmt(cout);
+
   bool interactive = isatty(STDIN_FILENO);
   while (true)
   {
@@ -173,7 +177,9 @@ void InteractiveDebugger::instructionExecuted(
     map<string, Command>::iterator itr = m_commands.find(tokens[0]);
     if (itr != m_commands.end())
     {
-      if ((this->*itr->second)(tokens))
+      bool resume = (this->*itr->second)(tokens);
+      cout.copyfmt(format);
+      if (resume)
         break;
     }
     else
-- 
2.43.0


From a81deed454d9ff39ab965e6622af4f31c906178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 087/128] fix: track the line of the last breakpoint hit for
 each work-item

---
 src/plugins/InteractiveDebugger.cpp | 25 ++++++++++++++-----------
 src/plugins/InteractiveDebugger.h   |  2 +-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index b12c07a..db1a6bf 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -197,7 +197,7 @@ bool InteractiveDebugger::isThreadSafe() const
 void InteractiveDebugger::kernelBegin(const KernelInvocation* kernelInvocation)
 {
   m_continue = false;
-  m_lastBreakLine = 0;
+  m_lastBreakLines.clear();
   m_listPosition = 0;
   m_next = false;
   m_previousDepth = 0;
@@ -254,18 +254,18 @@ bool InteractiveDebugger::hasHitBreakpoint()
   if (m_breakpoints.empty())
     return false;
 
-  // Check if we have passed over the previous breakpoint
-  if (m_lastBreakLine)
+  // Check if this work-item has passed over its previous breakpoint
+  size_t line = getCurrentLineNumber();
+  const WorkItem* workItem = m_kernelInvocation->getCurrentWorkItem();
+  auto last = m_lastBreakLines.find(workItem);
+  if (last != m_lastBreakLines.end())
   {
-    if (getCurrentLineNumber() != m_lastBreakLine)
-      m_lastBreakLine = 0;
-    else
+    if (line == last->second)
       return false;
-    ;
+    m_lastBreakLines.erase(last);
   }
 
   // Check if we're at a breakpoint
-  size_t line = getCurrentLineNumber();
   map<size_t, size_t>::iterator itr;
   for (itr = m_breakpoints[m_program].begin();
        itr != m_breakpoints[m_program].end(); itr++)
@@ -273,9 +273,8 @@ bool InteractiveDebugger::hasHitBreakpoint()
     if (itr->second == line)
     {
       cout << "Breakpoint " << itr->first << " hit at line " << itr->second
-           << " by work-item "
-           << m_kernelInvocation->getCurrentWorkItem()->getGlobalID() << endl;
-      m_lastBreakLine = line;
+           << " by work-item " << workItem->getGlobalID() << endl;
+      m_lastBreakLines[workItem] = line;
       m_listPosition = 0;
       return true;
     }
@@ -423,6 +422,10 @@ bool InteractiveDebugger::brk(vector<string> args)
   if (lineNum)
   {
     m_breakpoints[m_program][m_nextBreakpoint++] = lineNum;
+
+    // Work-item is already at this line
+    if (lineNum == getCurrentLineNumber())
+      m_lastBreakLines[m_kernelInvocation->getCurrentWorkItem()] = lineNum;
   }
   else
   {
diff --git a/src/plugins/InteractiveDebugger.h b/src/plugins/InteractiveDebugger.h
index 312c23e..c86b62c 100644
--- a/src/plugins/InteractiveDebugger.h
+++ b/src/plugins/InteractiveDebugger.h
@@ -32,7 +32,7 @@ private:
   bool m_forceBreak;
   size_t m_listPosition;
   bool m_next;
-  size_t m_lastBreakLine;
+  std::map<const WorkItem*, size_t> m_lastBreakLines;
   size_t m_nextBreakpoint;
   size_t m_previousDepth;
   size_t m_previousLine;
-- 
2.43.0


From e2d012125e29b3f0548bfde7553fcdf3065ac270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 088/128] fix: global offset and number of arguments in the
 workitem command

---
 src/core/KernelInvocation.cpp       | 10 +++++-----
 src/core/KernelInvocation.h         |  2 +-
 src/plugins/InteractiveDebugger.cpp | 19 ++++++++++++++-----
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 159b44b..e17c7f7 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -266,13 +266,13 @@ void KernelInvocation::runWorker(int id)
   }
 }
 
-bool KernelInvocation::switchWorkItem(const Size3 gid)
+bool KernelInvocation::switchWorkItem(const Size3 index)
 {
   assert(m_numWorkers == 1);
 
   // Compute work-group ID
-  Size3 group(gid.x / m_localSize.x, gid.y / m_localSize.y,
-              gid.z / m_localSize.z);
+  Size3 group(index.x / m_localSize.x, index.y / m_localSize.y,
+              index.z / m_localSize.z);
 
   bool found = false;
   WorkGroup* previousWorkGroup = workerState.workGroup;
@@ -335,8 +335,8 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
   }
 
   // Get work-item
-  Size3 lid(gid.x % m_localSize.x, gid.y % m_localSize.y,
-            gid.z % m_localSize.z);
+  Size3 lid(index.x % m_localSize.x, index.y % m_localSize.y,
+            index.z % m_localSize.z);
   workerState.workItem = workerState.workGroup->getWorkItem(lid);
 
   return true;
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index d116841..c65a762 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -30,7 +30,7 @@ public:
   const Kernel* getKernel() const;
   Size3 getNumGroups() const;
   size_t getWorkDim() const;
-  bool switchWorkItem(const Size3 gid);
+  bool switchWorkItem(const Size3 index);
 
   int getWorkerID() const;
 
diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index db1a6bf..d8df13d 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -900,14 +900,23 @@ bool InteractiveDebugger::step(vector<string> args)
 
 bool InteractiveDebugger::workitem(vector<string> args)
 {
-  // TODO: Take offsets into account?
-  Size3 gid(0, 0, 0);
+  if (args.size() > 4)
+  {
+    cout << "Invalid number of arguments." << endl;
+    return false;
+  }
+
+  Size3 offset = m_kernelInvocation->getGlobalOffset();
+  Size3 gid = offset;
+  Size3 index(0, 0, 0);
   for (unsigned i = 1; i < args.size(); i++)
   {
-    // Parse argument as a target line number
+    // Parse argument as a global ID
     istringstream ss(args[i]);
     ss >> gid[i - 1];
-    if (!ss.eof() || gid[i - 1] >= m_kernelInvocation->getGlobalSize()[i - 1])
+    index[i - 1] = gid[i - 1] - offset[i - 1];
+    if (!ss.eof() || gid[i - 1] < offset[i - 1] ||
+        index[i - 1] >= m_kernelInvocation->getGlobalSize()[i - 1])
     {
       cout << "Invalid global ID." << endl;
       return false;
@@ -917,7 +926,7 @@ bool InteractiveDebugger::workitem(vector<string> args)
   // Ugly const_cast since this operation actually changes something about
   // the simulation. This goes against the idea that plugins are entirely
   // passive.
-  if (!const_cast<KernelInvocation*>(m_kernelInvocation)->switchWorkItem(gid))
+  if (!const_cast<KernelInvocation*>(m_kernelInvocation)->switchWorkItem(index))
   {
     cout << "Work-item has already finished, unable to load state." << endl;
     return false;
-- 
2.43.0


From c81bac1d057180418871bde56390a9d33bcc4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 089/128] fix: do not show variables of another function in the
 debugger

---
 src/core/WorkItem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index fea6860..32ba028 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -43,6 +43,7 @@ struct WorkItem::Position
   llvm::BasicBlock::const_iterator currInst;
   std::stack<const llvm::Instruction*> callStack;
   std::stack<std::list<size_t>> allocations;
+  std::stack<VariableMap> variables;
 };
 
 WorkItem::WorkItem(const KernelInvocation* kernelInvocation,
@@ -920,6 +921,10 @@ INSTRUCTION(call)
     m_position->allocations.push(list<size_t>());
     m_position->nextBlock = &*function->begin();
 
+    // Save variables of the caller
+    m_position->variables.push(VariableMap());
+    m_position->variables.top().swap(m_variables);
+
     // Set function arguments
     llvm::Function::const_arg_iterator argItr;
     for (argItr = function->arg_begin(); argItr != function->arg_end();
@@ -1388,6 +1393,10 @@ INSTRUCTION(ret)
       m_privateMemory->deallocateBuffer(*itr);
     }
     m_position->allocations.pop();
+
+    // Restore variables of the caller
+    m_variables.swap(m_position->variables.top());
+    m_position->variables.pop();
   }
   else
   {
-- 
2.43.0


From c1b5776735f83006ac878c3f925a63e8ff278d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 090/128] fix: wild read when printing a subscript that lies in
 another buffer

---
 src/core/WorkItem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 32ba028..31edb40 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -650,9 +650,9 @@ void WorkItem::printExpression(string expr) const
         return;
       }
 
-      // Get pointer to data and add offset
-      data = (unsigned char*)memory->getPointer(address);
-      data += subscript * elemSize;
+      // Get pointer to data
+      data =
+        (unsigned char*)memory->getPointer(address + subscript * elemSize);
 
       // Update types
       mdtype = ptrtype->getRawBaseType();
-- 
2.43.0


From fa7699507942e76449c92252eb7322a501223a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 091/128] fix: overflow in the bounds check of very large
 accesses

---
 src/core/Memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index b2ba360..2059aa8 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -406,7 +406,7 @@ bool Memory::isAddressValid(size_t address, size_t size) const
   size_t buffer = extractBuffer(address);
   size_t offset = extractOffset(address);
   if (buffer == 0 || buffer >= m_memory.size() || !m_memory[buffer] ||
-      offset + size > m_memory[buffer]->size)
+      size > m_memory[buffer]->size || offset > m_memory[buffer]->size - size)
   {
     return false;
   }
-- 
2.43.0


From 8b51085ccfb3f4ac1ac033db566db05aa854275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 092/128] fix: reset only the number base after debugger
 commands

---
 src/plugins/InteractiveDebugger.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index d8df13d..504d990 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -114,10 +114,6 @@ void InteractiveDebugger::instructionExecuted(
   m_continue = false;
   m_next = false;
 
-  // Commands may change the format of the output stream
-  ios format(NULL);
-  format.copyfmt(cout);
-
   bool interactive = isatty(STDIN_FILENO);
   while (true)
   {
@@ -178,7 +174,7 @@ void InteractiveDebugger::instructionExecuted(
     if (itr != m_commands.end())
     {
       bool resume = (this->*itr->second)(tokens);
-      cout.copyfmt(format);
+      cout << dec; // Commands may leave the stream in hexadecimal mode
       if (resume)
         break;
     }
-- 
2.43.0


From 0cd63afad6d9743fce2ecea639f8203acc3f6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 093/128] fix: reject input after the last argument, and read
 files without a final newline

---
 src/kernel/Simulation.cpp | 42 ++++++++++++++++++++++-----------------
 src/kernel/Simulation.h   |  1 +
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1c462da..6cf26b5 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -71,9 +71,9 @@ template <typename T> void Simulation::dumpArgument(DumpArg& arg)
   delete[] data;
 }
 
-template <typename T> void Simulation::get(T& result)
+bool Simulation::findToken()
 {
-  do
+  while (true)
   {
     // Check if line buffer has content
     streampos pos = m_lineBuffer.tellg();
@@ -84,20 +84,13 @@ template <typename T> void Simulation::get(T& result)
       // Line has content, rewind line buffer
       m_lineBuffer.clear();
       m_lineBuffer.seekg(pos);
-
-      // Read value from line buffer
-      m_lineBuffer >> result;
-      if (m_lineBuffer.fail())
-      {
-        throw ifstream::failbit;
-      }
-
-      return;
+      return true;
     }
 
     // Get next line
     string line;
-    getline(m_simfile, line);
+    if (!getline(m_simfile, line))
+      return false;
     m_lineNumber++;
 
     // Remove comments
@@ -110,10 +103,23 @@ template <typename T> void Simulation::get(T& result)
     // Update line buffer
     m_lineBuffer.clear();
     m_lineBuffer.str(line);
-  } while (m_simfile.good());
+  }
+}
 
-  // Couldn't read data from file, throw exception
-  throw m_simfile.eof() ? ifstream::eofbit : ifstream::failbit;
+template <typename T> void Simulation::get(T& result)
+{
+  if (!findToken())
+  {
+    // Couldn't read data from file, throw exception
+    throw m_simfile.eof() ? ifstream::eofbit : ifstream::failbit;
+  }
+
+  // Read value from line buffer
+  m_lineBuffer >> result;
+  if (m_lineBuffer.fail())
+  {
+    throw ifstream::failbit;
+  }
 }
 
 bool Simulation::load(const char* filename)
@@ -217,10 +223,10 @@ bool Simulation::load(const char* filename)
     }
 
     // Make sure there is no more input
-    string next;
-    m_simfile >> next;
-    if (m_simfile.good() || !m_simfile.eof())
+    if (findToken())
     {
+      string next;
+      m_lineBuffer >> next;
       cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
       return false;
     }
diff --git a/src/kernel/Simulation.h b/src/kernel/Simulation.h
index ac7bcc8..6f50f12 100644
--- a/src/kernel/Simulation.h
+++ b/src/kernel/Simulation.h
@@ -68,6 +68,7 @@ private:
   std::list<DumpArg> m_dumpArguments;
 
   template <typename T> void dumpArgument(DumpArg& arg);
+  bool findToken();
   template <typename T> void get(T& result);
   void parseArgument(size_t index);
   template <typename T>
-- 
2.43.0


From fa5d9f3e3e2a2b769b86e7d171583f8d025fdeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 094/128] fix: reject zero and negative sizes in simulator
 files

---
 src/kernel/Simulation.cpp | 22 ++++++++++++++++------
 src/kernel/Simulation.h   |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 6cf26b5..1581b29 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -122,6 +122,20 @@ template <typename T> void Simulation::get(T& result)
   }
 }
 
+void Simulation::getSize(Size3& size)
+{
+  for (unsigned i = 0; i < 3; i++)
+  {
+    long long value;
+    get(value);
+    if (value <= 0)
+    {
+      throw "Sizes must be greater than zero";
+    }
+    size[i] = value;
+  }
+}
+
 bool Simulation::load(const char* filename)
 {
   // Open simulator file
@@ -144,13 +158,9 @@ bool Simulation::load(const char* filename)
     PARSING("kernel");
     get(kernelName);
     PARSING("NDRange");
-    get(m_ndrange.x);
-    get(m_ndrange.y);
-    get(m_ndrange.z);
+    getSize(m_ndrange);
     PARSING("work-group size");
-    get(m_wgsize.x);
-    get(m_wgsize.y);
-    get(m_wgsize.z);
+    getSize(m_wgsize);
 
     // Open program file
     ifstream progFile;
diff --git a/src/kernel/Simulation.h b/src/kernel/Simulation.h
index 6f50f12..9eba675 100644
--- a/src/kernel/Simulation.h
+++ b/src/kernel/Simulation.h
@@ -70,6 +70,7 @@ private:
   template <typename T> void dumpArgument(DumpArg& arg);
   bool findToken();
   template <typename T> void get(T& result);
+  void getSize(oclgrind::Size3& size);
   void parseArgument(size_t index);
   template <typename T>
   void parseArgumentData(unsigned char* result, size_t size);
-- 
2.43.0


From 32a14c4a4aae954d01da57379d2cf74ced43ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 095/128] fix: reject argument values of the wrong size

---
 src/kernel/Simulation.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1581b29..794605f 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -538,8 +538,16 @@ void Simulation::parseArgument(size_t index)
   }
   else
   {
+    // Ensure data has the size of the argument if passed by value
+    // (three-component vectors may leave out the padding)
+    if (addrSpace == CL_KERNEL_ARG_ADDRESS_PRIVATE && size != argSize &&
+        !(argType.ends_with("3") && size * 4 == argSize * 3))
+    {
+      throw "Size of data does not match size of argument";
+    }
+
     // Parse argument data
-    unsigned char* data = new unsigned char[size];
+    unsigned char* data = new unsigned char[max(size, argSize)];
     if (noinit)
     {
     }
-- 
2.43.0


From a01e149ff6d55d18c4d78be0b324eb64f5fc7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 096/128] fix: report unrecognised header tokens

---
 src/kernel/Simulation.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 794605f..0732f8a 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -247,6 +247,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const string& err)
+  {
+    cerr << "Line " << m_lineNumber << ": " << err << " (" << m_parsing << ")"
+         << endl;
+    return false;
+  }
   catch (ifstream::iostate e)
   {
     if (e == ifstream::eofbit)
@@ -357,7 +363,7 @@ void Simulation::parseArgument(size_t index)
     MATCH_TYPE("ulong", TYPE_ULONG, 8)
     MATCH_TYPE("float", TYPE_FLOAT, 4)
     MATCH_TYPE("double", TYPE_DOUBLE, 8)
-    else if (token.compare(0, 4, "dump") == 0)
+    else if (token == "dump")
     {
       dump = true;
     }
@@ -443,10 +449,7 @@ void Simulation::parseArgument(size_t index)
     }
     else
     {
-      string err = "Unrecognised header token '";
-      err += token;
-      err += "'";
-      throw err.c_str();
+      throw "Unrecognised header token '" + token + "'";
     }
   }
 
-- 
2.43.0


From 1390532144580c4e5207e9eed3267375f7d84f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 097/128] fix: print negative char values with two digits in
 hexadecimal dumps

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 0732f8a..4755379 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -60,7 +60,7 @@ template <typename T> void Simulation::dumpArgument(DumpArg& arg)
     if (arg.hex)
       cout << "0x" << setfill('0') << setw(sizeof(T) * 2) << hex;
     if (sizeof(T) == 1)
-      cout << (int)data[i];
+      cout << (arg.hex ? (int)(uint8_t)data[i] : (int)data[i]);
     else
       cout << data[i];
     cout << dec;
-- 
2.43.0


From a9deb012bc82b59cc38fc8f0bb92971b8a02b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 098/128] fix: integer overflow when checking the length of a
 range

---
 src/kernel/Simulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 4755379..a0ed157 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -729,7 +729,8 @@ void Simulation::parseRange(unsigned char* result, size_t size,
   }
 
   // Ensure range is value
-  double num = (values[2] - values[0] + values[1]) / (double)values[1];
+  double num =
+    ((double)values[2] - values[0] + values[1]) / (double)values[1];
   if (ceil(num) != num || num * sizeof(T) != size)
   {
     throw "Range doesn't produce correct buffer size";
-- 
2.43.0


From b6b68a6627c9f70ef98c8c2c1a0339d860b6a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 099/128] fix: reject directories as programs and sizes that
 cannot be allocated

---
 src/kernel/Simulation.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index a0ed157..c5cabea 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -9,6 +9,7 @@
 #include <cassert>
 #include <cmath>
 #include <iostream>
+#include <new>
 #include <sstream>
 
 #include "core/Context.h"
@@ -174,6 +175,12 @@ bool Simulation::load(const char* filename)
     // Check for LLVM bitcode magic numbers
     char magic[2] = {0, 0};
     progFile.read(magic, 2);
+    if (progFile.bad())
+    {
+      cerr << "Unable to read " << progFileName << endl;
+      return false;
+    }
+    progFile.clear();
     if (magic[0] == 0x42 && magic[1] == 0x43)
     {
       // Load bitcode
@@ -247,6 +254,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const bad_alloc&)
+  {
+    cerr << "Line " << m_lineNumber << ": Out of memory (" << m_parsing << ")"
+         << endl;
+    return false;
+  }
   catch (const string& err)
   {
     cerr << "Line " << m_lineNumber << ": " << err << " (" << m_parsing << ")"
-- 
2.43.0


From 5db7e01bf87f352c33f8cd5b80f27ec72af09824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 100/128] fix: truncated and negative values of numeric options

---
 src/core/common.cpp    | 5 +++--
 src/core/common.h      | 2 +-
 src/plugins/Logger.cpp | 2 +-
 src/plugins/Logger.h   | 4 ++--
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index ef35bd4..be8ad64 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -291,7 +291,7 @@ bool checkEnv(const char* var)
   return (value && !strcmp(value, "1"));
 }
 
-unsigned getEnvInt(const char* var, int def, bool allowZero)
+size_t getEnvInt(const char* var, size_t def, bool allowZero)
 {
   const char* value = getenv(var);
   if (!value)
@@ -299,7 +299,8 @@ unsigned getEnvInt(const char* var, int def, bool allowZero)
 
   char* next;
   uint64_t result = strtoul(value, &next, 10);
-  if (strlen(next) || result == ULONG_MAX || (!allowZero && !result))
+  if (strlen(next) || strchr(value, '-') || result == ULONG_MAX ||
+      (!allowZero && !result))
   {
     cerr << endl << "Oclgrind: Invalid value for " << var << endl;
     abort();
diff --git a/src/core/common.h b/src/core/common.h
index 4b36d94..e439d2c 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -160,7 +160,7 @@ struct Image
 bool checkEnv(const char* var);
 
 // Get an environment variable as an integer
-unsigned getEnvInt(const char* var, int def = 0, bool allowZero = true);
+size_t getEnvInt(const char* var, size_t def = 0, bool allowZero = true);
 
 // Output an instruction in human-readable format
 void dumpInstruction(std::ostream& out, const llvm::Instruction* instruction);
diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 9634a23..5016d99 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -19,7 +19,7 @@ using namespace std;
 
 #define DEFAULT_MAX_ERRORS 1000
 
-unsigned Logger::m_numErrors = 0;
+size_t Logger::m_numErrors = 0;
 
 static mutex logMutex;
 
diff --git a/src/plugins/Logger.h b/src/plugins/Logger.h
index 5595cfe..2ca5c0e 100644
--- a/src/plugins/Logger.h
+++ b/src/plugins/Logger.h
@@ -21,7 +21,7 @@ public:
 private:
   std::ostream* m_log;
 
-  unsigned m_maxErrors;
-  static unsigned m_numErrors;
+  size_t m_maxErrors;
+  static size_t m_numErrors;
 };
 } // namespace oclgrind
-- 
2.43.0


From c9624aa51686ea69a72d64f9d4f692260a9a1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 101/128] fix: short form of --version in usage text

---
 src/kernel/oclgrind-kernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/oclgrind-kernel.cpp b/src/kernel/oclgrind-kernel.cpp
index 2afe732..a751f94 100644
--- a/src/kernel/oclgrind-kernel.cpp
+++ b/src/kernel/oclgrind-kernel.cpp
@@ -297,7 +297,7 @@ static void printUsage()
        << "  --uninitialized              "
           "Report usage of uninitialized values"
        << endl
-       << "  --version [-q]               "
+       << "  --version [-v]               "
           "Display version information"
        << endl
        << endl
-- 
2.43.0


From 5de90be1e27c6603eeb0dbc8eccb2cefccc22747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 102/128] fix: mismatched deallocation of the precompiled
 header path

---
 src/core/Program.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 1e0ec82..8912606 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -422,7 +422,8 @@ bool Program::build(BuildType buildType, const char* options,
     const char* pchdirOverride = getenv("OCLGRIND_PCH_DIR");
     if (pchdirOverride)
     {
-      pchdir = strdup(pchdirOverride);
+      pchdir = new char[strlen(pchdirOverride) + 1];
+      strcpy(pchdir, pchdirOverride);
     }
     else
     {
-- 
2.43.0


From 40e9a3f2694dc8f3e5d9ea84493a5e6245e23d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 103/128] fix: plugins saw the value before an atomic operation
 as the stored one

---
 src/core/Memory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index 2059aa8..e5e7973 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -107,11 +107,11 @@ template int32_t Memory::atomic(AtomicOp op, size_t address, int32_t value);
 template <typename T> T Memory::atomic(AtomicOp op, size_t address, T value)
 {
   m_context->notifyMemoryAtomicLoad(this, op, address, sizeof(T));
-  m_context->notifyMemoryAtomicStore(this, op, address, sizeof(T));
 
   // Bounds check
   if (!isAddressValid(address, sizeof(T)))
   {
+    m_context->notifyMemoryAtomicStore(this, op, address, sizeof(T));
     return 0;
   }
 
@@ -161,6 +161,9 @@ template <typename T> T Memory::atomic(AtomicOp op, size_t address, T value)
     break;
   }
 
+  // Plugins may inspect the value that was stored
+  m_context->notifyMemoryAtomicStore(this, op, address, sizeof(T));
+
   if (m_addressSpace == AddrSpaceGlobal)
     ATOMIC_MUTEX(offset).unlock();
 
-- 
2.43.0


From 6556f1afa295fb70a316b99ac4ebdbdbce30751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 104/128] fix: crash when CL_PROGRAM_BINARIES is asked for with
 a NULL entry

---
 src/core/Program.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 8912606..517b2ca 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -835,7 +835,7 @@ void Program::deallocateProgramScopeVars()
 
 void Program::getBinary(unsigned char* binary) const
 {
-  if (!m_module)
+  if (!m_module || !binary)
     return;
 
   std::string str;
-- 
2.43.0


From b4f4fc96ad289a757ca923b50b87e1b6c38376f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 105/128] fix: image pitches reported as zero unless given

---
 src/runtime/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 7b57efe..f4516e5 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1866,6 +1866,15 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   image->desc.image_height = height;
   image->desc.image_depth = depth;
   image->desc.image_array_size = arraySize;
+  if (!image->desc.image_row_pitch)
+  {
+    image->desc.image_row_pitch = width * pixelSize;
+  }
+  if (!image->desc.image_slice_pitch &&
+      (dims > 2 || isImageArray(image_desc->image_type)))
+  {
+    image->desc.image_slice_pitch = image->desc.image_row_pitch * height;
+  }
   image->refCount = 1;
   if (image_desc->image_type != CL_MEM_OBJECT_IMAGE1D_BUFFER)
   {
-- 
2.43.0


From ae2d49cb041e448d4e97341468b831fa398d3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 106/128] fix: command type reported for clEnqueueTask

---
 src/runtime/runtime.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f4516e5..f76360a 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5536,9 +5536,14 @@ clEnqueueTask(cl_command_queue command_queue, cl_kernel kernel,
   REGISTER_API;
 
   size_t work = 1;
-  return clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work, &work,
-                                num_events_in_wait_list, event_wait_list,
-                                event);
+  cl_int ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work,
+                                      &work, num_events_in_wait_list,
+                                      event_wait_list, event);
+  if (event && ret == CL_SUCCESS)
+  {
+    (*event)->type = CL_COMMAND_TASK;
+  }
+  return ret;
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
-- 
2.43.0


From aee2c9c6aad80f55a5755396c674096fbc2f5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 107/128] fix: profiling information given where it is not
 available

---
 src/runtime/async_queue.cpp | 1 +
 src/runtime/icd.h           | 1 +
 src/runtime/runtime.cpp     | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index a1641f4..d235b81 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -47,6 +47,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->queue = queue;
   _event->type = type;
   _event->event = event;
+  _event->profiling = queue->properties & CL_QUEUE_PROFILING_ENABLE;
   _event->refCount = 1;
   clRetainContext(queue->context);
 
diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 360d310..09f216e 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -235,6 +235,7 @@ struct _cl_event
   cl_command_queue queue;
   cl_command_type type;
   oclgrind::Event* event;
+  bool profiling = false;
   std::list<std::pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>
     callbacks;
   unsigned int refCount;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f76360a..b628f13 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3904,7 +3904,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetEventProfilingInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_EVENT, event);
   }
-  if (!event->queue)
+  if (!event->profiling || event->event->state != CL_COMPLETE)
   {
     ReturnError(event->context, CL_PROFILING_INFO_NOT_AVAILABLE);
   }
-- 
2.43.0


From d2f006bd3a6aa3a83582b27714b70baad2f1fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 108/128] fix: map count of memory objects was always zero

---
 src/runtime/icd.h       | 1 +
 src/runtime/runtime.cpp | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 09f216e..13aba9d 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -200,6 +200,7 @@ struct _cl_mem
   void* hostPtr;
   std::stack<std::pair<void(CL_CALLBACK*)(cl_mem, void*), void*>> callbacks;
   std::vector<cl_mem_properties> properties;
+  cl_uint mapCount = 0;
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index b628f13..fa40116 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1862,6 +1862,7 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   image->isImage = true;
   image->format = *image_format;
   image->desc = *image_desc;
+  image->mapCount = 0;
   image->desc.image_width = width;
   image->desc.image_height = height;
   image->desc.image_depth = depth;
@@ -2179,7 +2180,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetMemObjectInfo(
     break;
   case CL_MEM_MAP_COUNT:
     result_size = sizeof(cl_uint);
-    result_data.cluint = 0;
+    result_data.cluint = memobj->mapCount;
     break;
   case CL_MEM_REFERENCE_COUNT:
     result_size = sizeof(cl_uint);
@@ -5164,6 +5165,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   asyncQueueRetain(cmd, buffer);
   asyncEnqueue(command_queue, CL_COMMAND_MAP_BUFFER, cmd,
                num_events_in_wait_list, event_wait_list, event);
+  buffer->mapCount++;
 
   SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
@@ -5281,6 +5283,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   asyncQueueRetain(cmd, image);
   asyncEnqueue(command_queue, CL_COMMAND_MAP_IMAGE, cmd,
                num_events_in_wait_list, event_wait_list, event);
+  image->mapCount++;
 
   SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
@@ -5334,6 +5337,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueUnmapMemObject(
   asyncQueueRetain(cmd, memobj);
   asyncEnqueue(command_queue, CL_COMMAND_UNMAP_MEM_OBJECT, cmd,
                num_events_in_wait_list, event_wait_list, event);
+  if (memobj->mapCount)
+  {
+    memobj->mapCount--;
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From dc894be88db9f6fea0bb9503b3ff2abf3b78fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 109/128] fix: kernel attributes copied from a destroyed string

---
 src/runtime/runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fa40116..cf1225b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3402,6 +3402,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     cl_context context;
     cl_program program;
   } result_data;
+  std::string attributes;
   const char* str = 0;
 
   switch (param_name)
@@ -3427,8 +3428,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     result_data.program = kernel->program;
     break;
   case CL_KERNEL_ATTRIBUTES:
-    result_size = kernel->kernel->getAttributes().size() + 1;
-    str = kernel->kernel->getAttributes().c_str();
+    attributes = kernel->kernel->getAttributes();
+    result_size = attributes.size() + 1;
+    str = attributes.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
-- 
2.43.0


From bbd1a1e9c163907e2881519d62a5606dd3f7eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 110/128] fix: empty kernel argument names copied from
 uninitialised memory

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index cf1225b..dd8a611 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3483,7 +3483,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     cl_kernel_arg_address_qualifier addressQual;
     cl_kernel_arg_access_qualifier accessQual;
     cl_kernel_arg_type_qualifier typeQual;
-  } result_data;
+  } result_data = {};
 
   std::string str_data;
 
-- 
2.43.0


From a959bb40e2f87a0b1831a08ae4bc4c2b03c032d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 111/128] fix: names of integer and scalar types in the
 vec_type_hint attribute

---
 src/core/Kernel.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 7e218db..03a3088 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -384,10 +384,35 @@ string Kernel::getAttributes() const
 
     // Generate attribute string
     attributes << "vec_type_hint(" << flush;
-    llvm::raw_os_ostream out(attributes);
-    type->print(out);
-    out.flush();
-    attributes << n << ") ";
+    if (type->isIntegerTy())
+    {
+      // The second operand says whether the type is signed
+      if (!getMDAsConstInt(node->getOperand(1))->getZExtValue())
+        attributes << "u";
+      switch (type->getIntegerBitWidth())
+      {
+      case 8:
+        attributes << "char";
+        break;
+      case 16:
+        attributes << "short";
+        break;
+      case 32:
+        attributes << "int";
+        break;
+      case 64:
+        attributes << "long";
+        break;
+      }
+    }
+    else
+    {
+      llvm::raw_os_ostream out(attributes);
+      type->print(out);
+    }
+    if (n > 1)
+      attributes << n;
+    attributes << ") ";
   }
 
   return attributes.str();
-- 
2.43.0


From 120d8c88095dde076a6d7c0f9876194c5f6c7737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 112/128] fix: memory objects could be destroyed before their
 pending migration

---
 src/runtime/runtime.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index dd8a611..1dd2621 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5369,6 +5369,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMigrateMemObjects(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  for (cl_uint i = 0; mem_objects && i < num_mem_objects; i++)
+  {
+    if (mem_objects[i])
+    {
+      asyncQueueRetain(cmd, mem_objects[i]);
+    }
+  }
   asyncEnqueue(command_queue, CL_COMMAND_MIGRATE_MEM_OBJECTS, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-- 
2.43.0


From 1cd516285239932bbffd921d78bc079316ef75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:03 +0000
Subject: [PATCH 113/128] fix: memory objects to migrate were not checked

---
 src/runtime/runtime.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 1dd2621..237ef75 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5367,15 +5367,26 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMigrateMemObjects(
     return err;
   }
 
-  // Enqueue command
-  oclgrind::Command* cmd = new oclgrind::Command();
-  for (cl_uint i = 0; mem_objects && i < num_mem_objects; i++)
+  if (num_mem_objects == 0 || !mem_objects)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "No memory objects specified");
+  }
+  for (cl_uint i = 0; i < num_mem_objects; i++)
   {
-    if (mem_objects[i])
+    if (!mem_objects[i])
     {
-      asyncQueueRetain(cmd, mem_objects[i]);
+      ReturnErrorInfo(command_queue->context, CL_INVALID_MEM_OBJECT,
+                      "Memory object " << i << " is NULL");
     }
   }
+
+  // Enqueue command
+  oclgrind::Command* cmd = new oclgrind::Command();
+  for (cl_uint i = 0; i < num_mem_objects; i++)
+  {
+    asyncQueueRetain(cmd, mem_objects[i]);
+  }
   asyncEnqueue(command_queue, CL_COMMAND_MIGRATE_MEM_OBJECTS, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-- 
2.43.0


From a91973626595522aa79e34a0aff0753fbef4cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:52 +0000
Subject: [PATCH 114/128] fix: kernels of different contexts shared the index
 of the next work-group

---
 src/core/KernelInvocation.cpp | 12 +++++-------
 src/core/KernelInvocation.h   |  3 +++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index e17c7f7..6c111b5 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -30,8 +30,6 @@ struct
   WorkItem* workItem;
 } static THREAD_LOCAL workerState;
 
-static atomic<unsigned> nextGroupIndex;
-
 KernelInvocation::KernelInvocation(const Context* context, const Kernel* kernel,
                                    unsigned int workDim, Size3 globalOffset,
                                    Size3 globalSize, Size3 localSize)
@@ -157,7 +155,7 @@ void KernelInvocation::run(const Context* context, Kernel* kernel,
 
 void KernelInvocation::run()
 {
-  nextGroupIndex = 0;
+  m_nextGroupIndex = 0;
 
   // Create worker threads
   // TODO: Run in main thread if only 1 worker
@@ -212,7 +210,7 @@ void KernelInvocation::runWorker(int id)
       else
       {
         // Take next work-group from pending pool
-        unsigned index = nextGroupIndex++;
+        unsigned index = m_nextGroupIndex++;
         if (index >= m_workGroups.size())
           // No more work to do
           break;
@@ -303,7 +301,7 @@ bool KernelInvocation::switchWorkItem(const Size3 index)
   if (!found)
   {
     std::vector<Size3>::iterator pItr;
-    for (pItr = m_workGroups.begin() + nextGroupIndex;
+    for (pItr = m_workGroups.begin() + m_nextGroupIndex;
          pItr != m_workGroups.end(); pItr++)
     {
       if (group == *pItr)
@@ -316,8 +314,8 @@ bool KernelInvocation::switchWorkItem(const Size3 index)
         // Re-order list of groups accordingly
         // Safe since this is not in a multi-threaded context
         m_workGroups.erase(pItr);
-        m_workGroups.insert(m_workGroups.begin() + nextGroupIndex, group);
-        nextGroupIndex++;
+        m_workGroups.insert(m_workGroups.begin() + m_nextGroupIndex, group);
+        m_nextGroupIndex++;
 
         break;
       }
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index c65a762..a62cdcf 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -8,6 +8,8 @@
 
 #include "common.h"
 
+#include <atomic>
+
 namespace oclgrind
 {
 class Context;
@@ -53,6 +55,7 @@ private:
 
   // Current execution state
   std::vector<Size3> m_workGroups;
+  std::atomic<unsigned> m_nextGroupIndex;
   std::list<WorkGroup*> m_runningGroups;
 
   // Worker threads
-- 
2.43.0


From f4995a2de7485c56b9c1e71fc66c608ccfae116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:52 +0000
Subject: [PATCH 115/128] fix: records of enqueued commands were not protected
 against concurrent host threads

---
 src/runtime/async_queue.cpp | 74 +++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index d235b81..a5f1dd0 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <map>
+#include <mutex>
 
 #include "core/Kernel.h"
 #include "core/Queue.h"
@@ -25,6 +26,9 @@ static map<Command*, cl_kernel> kernelMap;
 static map<Command*, cl_event> eventMap;
 static map<Command*, list<cl_event>> waitListMap;
 
+// The maps are used by the host threads of all contexts
+static mutex mapMutex;
+
 void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
                   cl_uint numEvents, const cl_event* waitList,
                   cl_event* eventOut)
@@ -33,9 +37,13 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   for (unsigned i = 0; i < numEvents; i++)
   {
     cmd->waitList.push_back(waitList[i]->event);
-    waitListMap[cmd].push_back(waitList[i]);
     clRetainEvent(waitList[i]);
   }
+  if (numEvents)
+  {
+    lock_guard<mutex> lock(mapMutex);
+    waitListMap[cmd].assign(waitList, waitList + numEvents);
+  }
 
   // Enqueue command
   Event* event = queue->queue->enqueue(cmd);
@@ -52,7 +60,10 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   clRetainContext(queue->context);
 
   // Add event to map
-  eventMap[cmd] = _event;
+  {
+    lock_guard<mutex> lock(mapMutex);
+    eventMap[cmd] = _event;
+  }
 
   // Pass event as output and retain (if required)
   if (eventOut)
@@ -66,16 +77,19 @@ void asyncQueueRetain(Command* cmd, cl_mem mem)
 {
   // Retain object and add to map
   clRetainMemObject(mem);
+  lock_guard<mutex> lock(mapMutex);
   memObjectMap[cmd].push_back(mem);
 }
 
 void asyncQueueRetain(Command* cmd, cl_kernel kernel)
 {
-  assert(kernelMap.find(cmd) == kernelMap.end());
-
   // Retain kernel and add to map
   clRetainKernel(kernel);
-  kernelMap[cmd] = kernel;
+  {
+    lock_guard<mutex> lock(mapMutex);
+    assert(kernelMap.find(cmd) == kernelMap.end());
+    kernelMap[cmd] = kernel;
+  }
 
   // Retain memory objects arguments
   map<cl_uint, cl_mem>::const_iterator itr;
@@ -87,31 +101,47 @@ void asyncQueueRetain(Command* cmd, cl_kernel kernel)
 
 void asyncQueueRelease(Command* cmd)
 {
-  // Release memory objects
-  if (memObjectMap.find(cmd) != memObjectMap.end())
+  // Remove objects from maps
+  list<cl_mem> memObjects;
+  cl_kernel kernel = NULL;
+  cl_event event;
+  list<cl_event> waitList;
   {
-    list<cl_mem> memObjects = memObjectMap[cmd];
-    while (!memObjects.empty())
+    lock_guard<mutex> lock(mapMutex);
+    if (memObjectMap.find(cmd) != memObjectMap.end())
     {
-      clReleaseMemObject(memObjects.front());
-      memObjects.pop_front();
+      memObjects.swap(memObjectMap[cmd]);
+      memObjectMap.erase(cmd);
+    }
+    if (cmd->type == Command::KERNEL)
+    {
+      assert(kernelMap.find(cmd) != kernelMap.end());
+      kernel = kernelMap[cmd];
+      kernelMap.erase(cmd);
+    }
+    event = eventMap[cmd];
+    eventMap.erase(cmd);
+    if (waitListMap.find(cmd) != waitListMap.end())
+    {
+      waitList.swap(waitListMap[cmd]);
+      waitListMap.erase(cmd);
     }
-    memObjectMap.erase(cmd);
+  }
+
+  // Release memory objects
+  while (!memObjects.empty())
+  {
+    clReleaseMemObject(memObjects.front());
+    memObjects.pop_front();
   }
 
   // Release kernel
-  if (cmd->type == Command::KERNEL)
+  if (kernel)
   {
-    assert(kernelMap.find(cmd) != kernelMap.end());
-    clReleaseKernel(kernelMap[cmd]);
-    kernelMap.erase(cmd);
+    clReleaseKernel(kernel);
     delete ((KernelCommand*)cmd)->kernel;
   }
 
-  // Remove event from map
-  cl_event event = eventMap[cmd];
-  eventMap.erase(cmd);
-
   // Perform callbacks
   list<pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>::iterator
     callItr;
@@ -123,11 +153,9 @@ void asyncQueueRelease(Command* cmd)
 
   // Release events
   list<cl_event>::iterator waitItr;
-  for (waitItr = waitListMap[cmd].begin(); waitItr != waitListMap[cmd].end();
-       waitItr++)
+  for (waitItr = waitList.begin(); waitItr != waitList.end(); waitItr++)
   {
     clReleaseEvent(*waitItr);
   }
-  waitListMap.erase(cmd);
   clReleaseEvent(event);
 }
-- 
2.43.0


From 2a52c4c3deecafdf1bcf1e85a37b4d2becaf4ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:55 +0000
Subject: [PATCH 116/128] fix: released queues of all contexts were kept in one
 list

---
 src/runtime/icd.h       |  2 ++
 src/runtime/runtime.cpp | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 13aba9d..7172bd0 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -174,6 +174,8 @@ struct _cl_context
   cl_context_properties* properties;
   size_t szProperties;
   std::stack<std::pair<void(CL_CALLBACK*)(cl_context, void*), void*>> callbacks;
+  // Queues without references that have not been deleted yet
+  std::list<cl_command_queue> releasedQueues;
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 237ef75..99a8650 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1309,13 +1309,14 @@ clRetainCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
 
 namespace
 {
-// Queues without references that have not been deleted yet
-list<cl_command_queue> releasedQueues;
-
 // Execute the remaining commands of released queues and delete the queues,
 // except for those that still wait for user events
-void deleteReleasedQueues()
+void deleteReleasedQueues(cl_context context)
 {
+  // The queues may hold the last references to the context
+  clRetainContext(context);
+
+  list<cl_command_queue>& releasedQueues = context->releasedQueues;
   auto itr = releasedQueues.begin();
   while (itr != releasedQueues.end())
   {
@@ -1335,6 +1336,8 @@ void deleteReleasedQueues()
     // Event callbacks may have changed the list
     itr = releasedQueues.begin();
   }
+
+  clReleaseContext(context);
 }
 } // namespace
 
@@ -1355,8 +1358,9 @@ clReleaseCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
   {
     // Queues that still wait for user events are deleted when their commands
     // have been executed
-    releasedQueues.push_back(command_queue);
-    deleteReleasedQueues();
+    cl_context context = command_queue->context;
+    context->releasedQueues.push_back(command_queue);
+    deleteReleasedQueues(context);
   }
 
   return CL_SUCCESS;
@@ -3852,10 +3856,10 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
   {
     itr->first(event, execution_status, itr->second);
   }
-  clReleaseEvent(event);
 
   // Released queues may have been waiting for this event
-  deleteReleasedQueues();
+  deleteReleasedQueues(event->context);
+  clReleaseEvent(event);
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 287b2b430515f5eac91dd0ce5ae50092d53838b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:55 +0000
Subject: [PATCH 117/128] fix: the platform could be created twice by
 concurrent host threads

---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 99a8650..60b6f88 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -12,6 +12,7 @@
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 
 #include "async_queue.h"
@@ -290,6 +291,9 @@ CL_API_ENTRY cl_int CL_API_CALL clIcdGetPlatformIDsKHR(
     ReturnError(NULL, CL_INVALID_VALUE);
   }
 
+  // The platform may be requested by several host threads at the same time
+  static mutex platformMutex;
+  lock_guard<mutex> lock(platformMutex);
   if (!m_platform)
   {
     m_platform = new _cl_platform_id;
-- 
2.43.0


From 205a3ec661c9323bdc723ce223bf52566677c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:55 +0000
Subject: [PATCH 118/128] fix: instruction counts of concurrent kernels were
 mixed up

---
 src/plugins/InstructionCounter.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index 1cb75d5..bbfed8a 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -158,13 +158,12 @@ void InstructionCounter::kernelBegin(const KernelInvocation* kernelInvocation)
 void InstructionCounter::kernelEnd(const KernelInvocation* kernelInvocation)
 {
   // Load default locale
-  locale previousLocale = cout.getloc();
-  locale defaultLocale("");
-  cout.imbue(defaultLocale);
+  ostringstream report;
+  report.imbue(locale(""));
 
-  cout << "Instructions executed for kernel '"
+  report << "Instructions executed for kernel '"
        << kernelInvocation->getKernel()->getName() << "':";
-  cout << endl;
+  report << endl;
 
   // Generate list named instructions and their counts
   vector<pair<string, size_t>> namedCounts;
@@ -190,14 +189,14 @@ void InstructionCounter::kernelEnd(const KernelInvocation* kernelInvocation)
   // Output sorted instruction counts
   for (unsigned i = 0; i < namedCounts.size(); i++)
   {
-    cout << setw(16) << dec << namedCounts[i].second << " - "
+    report << setw(16) << dec << namedCounts[i].second << " - "
          << namedCounts[i].first << endl;
   }
 
-  cout << endl;
+  report << endl;
 
-  // Restore locale
-  cout.imbue(previousLocale);
+  // Kernels of other contexts may be printing at the same time
+  cout << report.str() << flush;
 }
 
 void InstructionCounter::workGroupBegin(const WorkGroup* workGroup)
-- 
2.43.0


From f799ad9f72a19b286f258c3d1436fb433a170a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 119/128] fix: user data of a context's error callback was
 passed in the wrong argument

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 60b6f88..f4cfc50 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -154,7 +154,7 @@ void notifyAPIError(cl_context context, cl_int err, const char* function,
   // Fire context callback if set
   if (context && context->notify)
   {
-    context->notify(error.c_str(), context->data, 0, NULL);
+    context->notify(error.c_str(), NULL, 0, context->data);
   }
 }
 
-- 
2.43.0


From 4cdfe98ca8971df75064d4f193fe7ccc693767d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:51 +0000
Subject: [PATCH 120/128] fix: clEnqueueWaitForEvents did not check its event
 list

---
 src/runtime/runtime.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f4cfc50..804d5e3 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5752,6 +5752,29 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!num_events)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "num_events cannot be 0");
+  }
+  if (!event_list)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "event_list cannot be NULL");
+  }
+  for (cl_uint i = 0; i < num_events; i++)
+  {
+    if (!event_list[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_EVENT,
+                      "Event " << i << " is NULL");
+    }
+    if (event_list[i]->context != command_queue->context)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_CONTEXT,
+                      "Event " << i << " is from another context");
+    }
+  }
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
-- 
2.43.0


From f5ddcdb8b447be35258f412fd09d79bb0e76e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:00 +0000
Subject: [PATCH 121/128] fix: vector components selected by an index out of
 range touched host memory

---
 src/core/WorkItem.cpp         |  8 ++++++--
 src/plugins/Uninitialized.cpp | 26 ++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 31edb40..2d5e42e 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -967,7 +967,10 @@ INSTRUCTION(extractelem)
     (const llvm::ExtractElementInst*)instruction;
   unsigned index = getOperand(extract->getIndexOperand()).getUInt();
   TypedValue operand = getOperand(extract->getVectorOperand());
-  memcpy(result.data, operand.data + result.size * index, result.size);
+  if (index < operand.num)
+    memcpy(result.data, operand.data + result.size * index, result.size);
+  else
+    memset(result.data, 0, result.size); // Undefined result
 }
 
 INSTRUCTION(extractval)
@@ -1245,7 +1248,8 @@ INSTRUCTION(insertelem)
   TypedValue element = getOperand(instruction->getOperand(1));
   unsigned index = getOperand(instruction->getOperand(2)).getUInt();
   memcpy(result.data, vector.data, result.size * result.num);
-  memcpy(result.data + index * result.size, element.data, result.size);
+  if (index < result.num) // Undefined result otherwise
+    memcpy(result.data + index * result.size, element.data, result.size);
 }
 
 INSTRUCTION(insertval)
diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 56f2c6c..a10b59f 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1172,8 +1172,18 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
     unsigned index =
       workItem->getOperand(extractInst->getIndexOperand()).getUInt();
-    memcpy(newShadow.data, vectorShadow.data + newShadow.size * index,
-           newShadow.size);
+    if (index < llvm::cast<llvm::FixedVectorType>(
+                  extractInst->getVectorOperandType())
+                  ->getNumElements())
+    {
+      memcpy(newShadow.data, vectorShadow.data + newShadow.size * index,
+             newShadow.size);
+    }
+    else
+    {
+      // The result is undefined
+      memset(newShadow.data, 0xFF, newShadow.size * newShadow.num);
+    }
 
     shadowValues->setValue(instruction, newShadow);
     break;
@@ -1307,8 +1317,16 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
     unsigned index = workItem->getOperand(instruction->getOperand(2)).getUInt();
     memcpy(newShadow.data, vectorShadow.data, newShadow.size * newShadow.num);
-    memcpy(newShadow.data + index * newShadow.size, elementShadow.data,
-           newShadow.size);
+    if (index < newShadow.num)
+    {
+      memcpy(newShadow.data + index * newShadow.size, elementShadow.data,
+             newShadow.size);
+    }
+    else
+    {
+      // The result is undefined
+      memset(newShadow.data, 0xFF, newShadow.size * newShadow.num);
+    }
 
     shadowValues->setValue(instruction, newShadow);
     break;
-- 
2.43.0


From 78c0aff4ffde40d875f089ba0c8229ae0f1529aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:00 +0000
Subject: [PATCH 122/128] fix: memcpy, memmove and memset of invalid ranges
 allocated buffers of any size

---
 src/core/WorkItemBuiltins.cpp | 29 ++++++++++++++++++++++-------
 src/plugins/Uninitialized.cpp | 29 ++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index b60ab4a..2ecea58 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3848,9 +3848,17 @@ class WorkItemBuiltins
     unsigned destAddrSpace = memcpyInst->getDestAddressSpace();
     unsigned srcAddrSpace = memcpyInst->getSourceAddressSpace();
 
-    unsigned char* buffer = workItem->m_pool.alloc(size);
-    workItem->getMemory(srcAddrSpace)->load(buffer, src, size);
-    workItem->getMemory(destAddrSpace)->store(buffer, dest, size);
+    Memory* srcMemory = workItem->getMemory(srcAddrSpace);
+    Memory* destMemory = workItem->getMemory(destAddrSpace);
+
+    // Only copy data if the source is valid (the size may be arbitrarily large
+    // otherwise, and there is nothing to copy)
+    unsigned char* buffer = NULL;
+    if (srcMemory->isAddressValid(src, size))
+      buffer = workItem->m_pool.alloc(size);
+    bool loaded = srcMemory->load(buffer, src, size);
+    if (loaded || !destMemory->isAddressValid(dest, size))
+      destMemory->store(buffer, dest, size);
   }
 
   DEFINE_BUILTIN(llvm_memset)
@@ -3860,10 +3868,17 @@ class WorkItemBuiltins
     size_t size = workItem->getOperand(memsetInst->getLength()).getUInt();
     unsigned addressSpace = memsetInst->getDestAddressSpace();
 
-    unsigned char* buffer = workItem->m_pool.alloc(size);
-    unsigned char value = UARG(1);
-    memset(buffer, value, size);
-    workItem->getMemory(addressSpace)->store(buffer, dest, size);
+    Memory* memory = workItem->getMemory(addressSpace);
+
+    // The size may be arbitrarily large if the destination is not valid
+    unsigned char* buffer = NULL;
+    if (memory->isAddressValid(dest, size))
+    {
+      buffer = workItem->m_pool.alloc(size);
+      unsigned char value = UARG(1);
+      memset(buffer, value, size);
+    }
+    memory->store(buffer, dest, size);
   }
 
   DEFINE_BUILTIN(llvm_trap)
diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index a10b59f..28c7033 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -858,8 +858,11 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     unsigned dstAddrSpace = memcpyInst->getDestAddressSpace();
     unsigned srcAddrSpace = memcpyInst->getSourceAddressSpace();
 
-    copyShadowMemory(dstAddrSpace, dst, srcAddrSpace, src, size, workItem, NULL,
-                     true);
+    if (getShadowMemory(dstAddrSpace, workItem)->isAddressValid(dst, size))
+    {
+      copyShadowMemory(dstAddrSpace, dst, srcAddrSpace, src, size, workItem,
+                       NULL, true);
+    }
 
     // Check shadow of src address
     TypedValue srcShadow = shadowContext.getValue(workItem, srcOp);
@@ -883,18 +886,21 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     const llvm::MemSetInst* memsetInst = (const llvm::MemSetInst*)I;
     const llvm::Value* Addr = memsetInst->getDest();
     size_t dst = workItem->getOperand(Addr).getPointer();
-    unsigned size = workItem->getOperand(memsetInst->getLength()).getUInt();
+    size_t size = workItem->getOperand(memsetInst->getLength()).getUInt();
     unsigned addrSpace = memsetInst->getDestAddressSpace();
 
-    TypedValue shadowValue = {size, 1, new unsigned char[size]};
+    if (getShadowMemory(addrSpace, workItem)->isAddressValid(dst, size))
+    {
+      TypedValue shadowValue = {(unsigned)size, 1, new unsigned char[size]};
 
-    memset(
-      shadowValue.data,
-      shadowContext.getValue(workItem, memsetInst->getArgOperand(1)).getUInt(),
-      size);
-    storeShadowMemory(addrSpace, dst, shadowValue, workItem, NULL, true);
+      memset(shadowValue.data,
+             shadowContext.getValue(workItem, memsetInst->getArgOperand(1))
+               .getUInt(),
+             size);
+      storeShadowMemory(addrSpace, dst, shadowValue, workItem, NULL, true);
 
-    delete[] shadowValue.data;
+      delete[] shadowValue.data;
+    }
 
     // Check shadow of address
     TypedValue addrShadow = shadowContext.getValue(workItem, Addr);
@@ -2486,7 +2492,8 @@ bool ShadowMemory::isAddressValid(size_t address, size_t size) const
 {
   size_t index = extractBuffer(address);
   size_t offset = extractOffset(address);
-  return m_map.count(index) && (offset + size <= m_map.at(index)->size);
+  return m_map.count(index) && size <= m_map.at(index)->size &&
+         offset <= m_map.at(index)->size - size;
 }
 
 void ShadowMemory::load(unsigned char* dst, size_t address, size_t size) const
-- 
2.43.0


From 1b13b80afbf33e46e5cda7d73c65f0e3c3dc63e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:54 +0000
Subject: [PATCH 123/128] fix: API calls made through an ICD loader recursed
 into the loader

The functions added with OpenCL 2.0 and later were not renamed in the ICD
build, so that their entries in the dispatch table resolved to the loader's
functions of the same names, which call the entries again.
---
 src/runtime/icd.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 7172bd0..15edb01 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -112,6 +112,31 @@
 #define clEnqueueReleaseGLObjects _clEnqueueReleaseGLObjects
 #define clGetGLContextInfoKHR _clGetGLContextInfoKHR
 #define clCreateEventFromGLsyncKHR _clCreateEventFromGLsyncKHR
+#define clCloneKernel _clCloneKernel
+#define clCreateBufferWithProperties _clCreateBufferWithProperties
+#define clCreateCommandQueueWithProperties _clCreateCommandQueueWithProperties
+#define clCreateImageWithProperties _clCreateImageWithProperties
+#define clCreatePipe _clCreatePipe
+#define clCreateProgramWithIL _clCreateProgramWithIL
+#define clCreateSamplerWithProperties _clCreateSamplerWithProperties
+#define clEnqueueSVMFree _clEnqueueSVMFree
+#define clEnqueueSVMMap _clEnqueueSVMMap
+#define clEnqueueSVMMemFill _clEnqueueSVMMemFill
+#define clEnqueueSVMMemcpy _clEnqueueSVMMemcpy
+#define clEnqueueSVMMigrateMem _clEnqueueSVMMigrateMem
+#define clEnqueueSVMUnmap _clEnqueueSVMUnmap
+#define clGetDeviceAndHostTimer _clGetDeviceAndHostTimer
+#define clGetHostTimer _clGetHostTimer
+#define clGetKernelSubGroupInfo _clGetKernelSubGroupInfo
+#define clGetPipeInfo _clGetPipeInfo
+#define clSVMAlloc _clSVMAlloc
+#define clSVMFree _clSVMFree
+#define clSetContextDestructorCallback _clSetContextDestructorCallback
+#define clSetDefaultDeviceCommandQueue _clSetDefaultDeviceCommandQueue
+#define clSetKernelArgSVMPointer _clSetKernelArgSVMPointer
+#define clSetKernelExecInfo _clSetKernelExecInfo
+#define clSetProgramReleaseCallback _clSetProgramReleaseCallback
+#define clSetProgramSpecializationConstant _clSetProgramSpecializationConstant
 #endif // OCLGRIND_ICD
 
 #include <cstdint>
-- 
2.43.0


From f7c3507d1dff7ae0b4ac8cf3cad2a9c07a8bdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:10 +0000
Subject: [PATCH 124/128] fix: API calls made by destructors of static objects
 used a destroyed vector

The thread-local call stack is destroyed before the static objects of the host
program, whose destructors commonly release OpenCL objects.
---
 src/runtime/runtime.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 804d5e3..da0bb74 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -179,20 +179,26 @@ void releaseCommand(oclgrind::Command* command)
 
 namespace
 {
-// Name of the API function currently being executed
-thread_local static std::vector<const char*> g_apiCallStack;
+// Name of the outermost API function currently being executed
+// (trivially destructible, as static objects of the host program may make API
+// calls when they are destroyed, after the thread-local objects)
+thread_local static const char* g_apiCall = NULL;
 
 class APICallEntry
 {
 public:
-  APICallEntry(const char* name)
+  APICallEntry(const char* name) : m_outer(g_apiCall)
   {
-    g_apiCallStack.push_back(name);
+    if (!m_outer)
+      g_apiCall = name;
   }
   ~APICallEntry()
   {
-    g_apiCallStack.pop_back();
+    g_apiCall = m_outer;
   }
+
+private:
+  const char* m_outer;
 };
 
 #define REGISTER_API APICallEntry apiCallEntry(__func__)
@@ -202,7 +208,7 @@ public:
   {                                                                            \
     ostringstream oss;                                                         \
     oss << info;                                                               \
-    notifyAPIError(context, err, g_apiCallStack.front(), oss.str());           \
+    notifyAPIError(context, err, g_apiCall, oss.str());           \
     return err;                                                                \
   }
 #define ReturnErrorArg(context, err, arg)                                      \
@@ -214,7 +220,7 @@ public:
   {                                                                            \
     ostringstream oss;                                                         \
     oss << info;                                                               \
-    notifyAPIError(context, err, g_apiCallStack.front(), oss.str());           \
+    notifyAPIError(context, err, g_apiCall, oss.str());           \
   }                                                                            \
   if (errcode_ret)                                                             \
   {                                                                            \
-- 
2.43.0


From 36fc81618ae1d0dd27982abecd783919e2a38ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:21 +0000
Subject: [PATCH 125/128] fix: kernels ran in the floating-point environment of
 the host program

Worker threads inherit the rounding mode, the flushing of subnormal numbers
and the enabled floating-point traps of the thread that enqueues or finishes a
command, which changed the results of kernels or ended the program with SIGFPE.
---
 src/core/KernelInvocation.cpp |  1 +
 src/core/common.h             | 23 +++++++++++++++++++++++
 src/runtime/runtime.cpp       |  1 +
 3 files changed, 25 insertions(+)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 6c111b5..b1fe120 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -193,6 +193,7 @@ int KernelInvocation::getWorkerID() const
 
 void KernelInvocation::runWorker(int id)
 {
+  DefaultFloatEnv floatEnv;
   workerState.workGroup = NULL;
   workerState.workItem = NULL;
   workerState.id = id;
diff --git a/src/core/common.h b/src/core/common.h
index e439d2c..07d0d9e 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -13,6 +13,7 @@
 #include "CL/cl.h"
 
 #include <cassert>
+#include <cfenv>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -210,6 +211,28 @@ size_t resolveConstantPointer(const llvm::Value* ptr, TypedValueMap& values);
 size_t resolveGEP(size_t base, const llvm::Type* sourceElementType,
                   std::vector<int64_t>& offsets);
 
+// Uses the default floating-point environment (rounding mode, handling of
+// subnormal numbers, masked exceptions) during the lifetime of the object,
+// instead of the one chosen by the host program
+class DefaultFloatEnv
+{
+public:
+  DefaultFloatEnv()
+  {
+    fegetenv(&m_env);
+    fesetenv(FE_DFL_ENV);
+  }
+  ~DefaultFloatEnv()
+  {
+    fesetenv(&m_env);
+  }
+  DefaultFloatEnv(const DefaultFloatEnv&) = delete;
+  DefaultFloatEnv& operator=(const DefaultFloatEnv&) = delete;
+
+private:
+  fenv_t m_env;
+};
+
 // Exception class for raising fatal errors
 class FatalError : std::runtime_error
 {
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index da0bb74..e8a2093 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4682,6 +4682,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
 
   // Generate color data with correct order and data type
   unsigned char* color = new unsigned char[pixelSize];
+  oclgrind::DefaultFloatEnv floatEnv;
   for (unsigned output = 0; output < getNumChannels(&img->format); output++)
   {
     // Get input channel index
-- 
2.43.0


From b9b43871937d1267df0e410caec4f37425219e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:59 +0000
Subject: [PATCH 126/128] fix: text printed by kernels was out of order or lost
 depending on the host's cout

Conversions are printed with C stdio but literal text went through cout, which
the host program may have unsynchronised, redirected, formatted or failed.
---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 2ecea58..20f15d2 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3510,7 +3510,7 @@ class WorkItemBuiltins
           memory->load((unsigned char*)&c, formatPtr++);
           if (c == '\0')
           {
-            cout << format;
+            fputs(format.c_str(), stdout);
             break;
           }
 
@@ -3635,7 +3635,7 @@ class WorkItemBuiltins
       }
       else
       {
-        cout << c;
+        putchar(c);
       }
     }
   }
-- 
2.43.0


From 711ed6c559283dbf92011b41df49569ea0a84608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:59 +0000
Subject: [PATCH 127/128] fix: instruction counting terminated the program if
 the environment names an unavailable locale

---
 src/plugins/InstructionCounter.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index bbfed8a..a6f2feb 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -23,6 +23,20 @@
 using namespace oclgrind;
 using namespace std;
 
+// Get the locale selected by the environment
+static locale getDefaultLocale()
+{
+  try
+  {
+    return locale("");
+  }
+  catch (const runtime_error&)
+  {
+    // Locale is not available on this system
+    return locale::classic();
+  }
+}
+
 #define COUNTED_LOAD_BASE (llvm::Instruction::OtherOpsEnd + 4)
 #define COUNTED_STORE_BASE (COUNTED_LOAD_BASE + 8)
 #define COUNTED_CALL_BASE (COUNTED_STORE_BASE + 8)
@@ -53,8 +67,7 @@ string InstructionCounter::getOpcodeName(unsigned opcode) const
   {
     // Create stream using default locale
     ostringstream name;
-    locale defaultLocale("");
-    name.imbue(defaultLocale);
+    name.imbue(getDefaultLocale());
 
     // Get number of bytes
     size_t bytes = m_memopBytes[opcode - COUNTED_LOAD_BASE];
@@ -159,7 +172,7 @@ void InstructionCounter::kernelEnd(const KernelInvocation* kernelInvocation)
 {
   // Load default locale
   ostringstream report;
-  report.imbue(locale(""));
+  report.imbue(getDefaultLocale());
 
   report << "Instructions executed for kernel '"
        << kernelInvocation->getKernel()->getName() << "':";
-- 
2.43.0


From 16defb6103b32860a0a35c831da1b118e6c1e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:21 +0000
Subject: [PATCH 128/128] fix: the number of suppressed errors was printed in
 the base set by the host on cerr

---
 src/plugins/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 5016d99..771f1c5 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -66,7 +66,7 @@ void Logger::log(MessageType type, const char* message)
     if (m_numErrors == m_maxErrors)
     {
       *m_log << endl
-             << "Oclgrind: " << m_numErrors
+             << "Oclgrind: " << to_string(m_numErrors)
              << " errors generated - suppressing further errors" << endl
              << endl;
     }
-- 
2.43.0

