From e59dabddcdb2a23efeafa51f78a150fb5dbdded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 01/33] fix: tolerate spurious wake-ups and lock failures in
 threads::Sync

pthread_cond_wait may return without a signal; all three waits of the barrier
checked their condition only once, so that threads could leave a barrier
before the others arrived. startBarrier() also reported success when the
mutex could not be locked.
---
 threads/sync.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..d967643 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -106,11 +106,14 @@ public:
 	 */
 	bool startBarrier()
 	{
-		if (!pthread_mutex_lock(&m_mutex))
+		if (pthread_mutex_lock(&m_mutex) != 0)
+			return false;
 
-		if (m_finishing) {
-			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
+		while (m_finishing) {
+			if (pthread_cond_wait(&m_finishCondition, &m_mutex) != 0) {
+				pthread_mutex_unlock(&m_mutex);
 				return false;
+			}
 		}
 
 		return true;
@@ -139,14 +142,18 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			// The finishing phase is the wake-up condition (guards
+			// against spurious wake-ups)
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From 089fcfc7c5e20b006547d1e06ee93e6350cd4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 02/33] fix: make the state of threads::Once atomic

---
 threads/once.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/threads/once.h b/threads/once.h
index 609e46b..d9e1242 100644
--- a/threads/once.h
+++ b/threads/once.h
@@ -38,6 +38,7 @@
 #ifndef THREADS_ONCE_H
 #define THREADS_ONCE_H
 
+#include <atomic>
 #include <mutex>
 
 #include "mutex.h"
@@ -51,7 +52,7 @@ namespace threads
 class Once {
 private:
 	/** Already executed */
-	bool m_state;
+	std::atomic<bool> m_state;
 
 	/** Mutex to lock the state */
 	Mutex m_mutex;
@@ -70,19 +71,19 @@ public:
 	void saveExec(T &obj, void (T::*func)())
 	{
 		// Default case
-		if (m_state)
+		if (m_state.load(std::memory_order_acquire))
 			return;
 
 		// Lock the state and double check
 		std::lock_guard<Mutex> lock(m_mutex);
-		if (m_state)
+		if (m_state.load(std::memory_order_relaxed))
 			return;
 
 		// Save execute:
 		// Execute the function before freeing the lock
 		(obj.*func)();
 
-		m_state = true;
+		m_state.store(true, std::memory_order_release);
 	}
 };
 
-- 
2.43.0


From 7d22fcfe3ebbbf02512c0b5e52f375de3c953628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 03/33] fix: select the NUMA cache only if NUMA communication
 is enabled

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..c3faeed 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -347,9 +347,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From f42cfd9c4986dd7dca08b90cf579bfd38bfac786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 04/33] fix: keep the second hand of the cache clock inside the
 cache

---
 cache/lru.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..5879894 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -82,7 +82,7 @@ public:
 			// Some default value
 			m_nextClear = size / 2;
 		else
-			m_nextClear = handDiff;
+			m_nextClear = handDiff % size;
 
 		m_referenced = new bool[size];
 		// Rest of the array will bet set to "false" by getFree()
-- 
2.43.0


From 33d66c836a5fef2e8af187e08b0a73e9d8290e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 05/33] fix: protect all accesses to the Fortran handle table

---
 fortran/pointerarray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..3f9278b 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -61,9 +61,9 @@ private:
 	std::vector<T*> m_pointers;
 
 	/**
-	 * Lock, we use to make sure only one thread at a time adds a pointer
+	 * Lock, we use to make sure only one thread at a time accesses the map
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +85,8 @@ public:
 	 */
 	T* get(int i) const
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +98,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0


From 0f5057193d2b8a369d48d6f24c88e14f5690da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 06/33] fix: do not drop another holder when an unlisted block
 is withdrawn

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..f72578d 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -193,6 +193,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// Not listed (anymore), keep all other entries
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From f05e8d279d0d39e8b73332bb7547b4a81459f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 07/33] fix: never pass a negative color to MPI_Comm_split in
 node local rank

---
 asagi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..b9afe1e 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -109,7 +109,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 	assert(mpiResult == MPI_SUCCESS);
 
 	MPI_Comm nodeComm;
-	mpiResult = MPI_Comm_split(comm, hash, rank, &nodeComm);
+	// The color must not be negative
+	mpiResult = MPI_Comm_split(comm, hash & 0x7FFFFFFF, rank, &nodeComm);
 	assert(mpiResult == MPI_SUCCESS);
 
 	// Gather all proc names of this node to detect Adler32 collisions
-- 
2.43.0


From a90dc1dc66d56f579c95996a8321ce7985eac873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 08/33] fix: pin the communication thread to the documented CPU
 for negative ids

---
 mpi/commthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..9d5f4be 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From 534721a7736f849d9766060dc558757528176ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 09/33] fix: free the MPI groups of the communication thread

---
 mpi/commthread.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 9d5f4be..9cf1b7d 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -200,10 +200,14 @@ public:
 		m_nextTag = 0;
 		if (!m_receiver.empty()) {
 			logWarning() << "ASAGI: Not all receivers are removed correctly.";
+			for (std::unordered_map<int, ReceiverDetail>::iterator it = m_receiver.begin();
+					it != m_receiver.end(); ++it)
+				MPI_Group_free(&it->second.group);
 			m_receiver.clear();
 		}
 
-		// Free the communicator
+		// Free the group and the communicator
+		MPI_Group_free(&m_group);
 		MPI_Comm_free(&m_comm);
 	}
 
@@ -296,7 +300,11 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				commThread.m_receiver.erase(data);
+				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
+				if (it != commThread.m_receiver.end()) {
+					MPI_Group_free(&it->second.group);
+					commThread.m_receiver.erase(it);
+				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
-- 
2.43.0


From cb7a7aabf78c23a71450fde426e93f0ae6a1a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 10/33] fix: protect the receiver map of the communication
 thread

---
 mpi/commthread.h | 58 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 9cf1b7d..750c4e7 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -113,6 +113,9 @@ private:
 	/** Lock used for thread safety */
 	threads::Mutex m_lock;
 
+	/** Protects the map of all registered receivers */
+	threads::Mutex m_receiverLock;
+
 private:
 	CommThread()
 		: m_comm(MPI_COMM_NULL), m_group(MPI_GROUP_NULL), m_rank(0),
@@ -239,6 +242,8 @@ public:
 		ReceiverDetail detail;
 		detail.recv = &receiver;
 		MPI_Comm_group(comm, &detail.group);
+
+		std::lock_guard<threads::Mutex> receiverLock(m_receiverLock);
 		m_receiver[tag] = detail;
 
 		return asagi::Grid::SUCCESS;
@@ -267,17 +272,50 @@ public:
 	 */
 	void send(int tag, int recv, message_t data)
 	{
-		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
-		if (it == m_receiver.end())
+		ReceiverDetail detail;
+		if (!findReceiver(tag, detail))
 			logWarning() << "ASAGI: Sending message from unregistered tag" << tag;
 		else {
 			int recvRank;
-			MPI_Group_translate_ranks(it->second.group, 1, &recv, m_group, &recvRank);
+			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
 			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
 private:
+	/**
+	 * Looks up a receiver
+	 *
+	 * @param tag The tag identifying the receiver
+	 * @param[out] detail The details of the receiver
+	 * @return False if no such receiver is registered
+	 */
+	bool findReceiver(int tag, ReceiverDetail &detail)
+	{
+		std::lock_guard<threads::Mutex> receiverLock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return false;
+
+		detail = it->second;
+		return true;
+	}
+
+	/**
+	 * Removes a receiver
+	 */
+	void removeReceiver(int tag)
+	{
+		std::lock_guard<threads::Mutex> receiverLock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::iterator it = m_receiver.find(tag);
+		if (it != m_receiver.end()) {
+			MPI_Group_free(&it->second.group);
+			m_receiver.erase(it);
+		}
+	}
+
 	/**
 	 * Main function of the communication thread
 	 */
@@ -300,22 +338,18 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
-				if (it != commThread.m_receiver.end()) {
-					MPI_Group_free(&it->second.group);
-					commThread.m_receiver.erase(it);
-				}
+				commThread.removeReceiver(data);
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-			std::unordered_map<int, ReceiverDetail>::const_iterator it = commThread.m_receiver.find(status.MPI_TAG);
-			if (it == commThread.m_receiver.end())
+			ReceiverDetail detail;
+			if (!commThread.findReceiver(status.MPI_TAG, detail))
 				logWarning() << "ASAGI: Received unregistered message with tag" << status.MPI_TAG;
 			else {
 				int senderRank;
-				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, it->second.group, &senderRank);
-				it->second.recv->recv(senderRank, data);
+				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, detail.group, &senderRank);
+				detail.recv->recv(senderRank, data);
 			}
 		}
 
-- 
2.43.0


From ddb21b1e9065e38c2bf82e9f864bdff2685570bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 11/33] fix: finish the initialisation of distributed levels
 everywhere before returning from open

---
 grid/level/cachedist.h |  6 +++---
 grid/level/fulldist.h  |  6 +++---
 mpi/mpicomm.h          | 15 +++++++++++++++
 mpi/nompicomm.h        | 10 ++++++++++
 numa/numacomm.h        | 29 +++++++++++++++++++++++++++++
 threads/sync.h         | 29 ++++++++++++++++++++++++++++-
 6 files changed, 88 insertions(+), 7 deletions(-)

diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 7f185a4..40f86d7 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -122,10 +122,10 @@ public:
 		// Initialize the NUMA transfer class
 		err = m_numaTrans.init(this->totalBlockSize(),
 				this->type(), this->numa(), this->cacheManager());
-		if (err != asagi::Grid::SUCCESS)
-			return err;
 
-		return asagi::Grid::SUCCESS;
+		// Other domains and ranks can access our data up on return. Thus, make sure
+		// that everything is initialized everywhere.
+		return this->numa().syncError(err, this->comm());
 	}
 
 	/**
diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 7536f77..1d53af8 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -137,10 +137,10 @@ public:
 				this->localBlockCount(), this->totalBlockSize(),
 				this->type(), this->comm(), this->numa(),
 				m_cacheManager);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
 
-		return asagi::Grid::SUCCESS;
+		// Other domains and ranks can access our data up on return. Thus, make sure
+		// that everything is initialized everywhere.
+		return this->numa().syncError(err, this->comm());
 	}
 
 	/**
diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f6d8d48..868e3bc 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -150,6 +150,21 @@ public:
 		MPI_Barrier(m_comm);
 	}
 
+	/**
+	 * Agrees on one error for all ranks
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err) const
+	{
+		std::lock_guard<Lock> lock(mpiLock);
+
+		int result = err;
+		if (MPI_Allreduce(MPI_IN_PLACE, &result, 1, MPI_INT, MPI_MAX, m_comm)
+				!= MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		return static_cast<asagi::Grid::Error>(result);
+	}
+
 	/**
 	 * Reserves <code>num</code> consecutive tags in this communicator
 	 *
diff --git a/mpi/nompicomm.h b/mpi/nompicomm.h
index 4430edb..87818cd 100644
--- a/mpi/nompicomm.h
+++ b/mpi/nompicomm.h
@@ -38,6 +38,8 @@
 #ifndef MPI_NOMPICOMM_H
 #define MPI_NOMPICOMM_H
 
+#include "asagi.h"
+
 namespace mpi
 {
 
@@ -76,6 +78,14 @@ public:
 	void barrier() const
 	{
 	}
+
+	/**
+	 * @return The local error
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err) const
+	{
+		return err;
+	}
 };
 
 }
diff --git a/numa/numacomm.h b/numa/numacomm.h
index 4f67bb8..2be2e6c 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -41,6 +41,8 @@
 #include "asagi.h"
 
 #include "numa.h"
+
+#include "mpi/mpicomm.h"
 #include "threads/sync.h"
 
 namespace numa
@@ -121,6 +123,33 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Agrees on one error for all domains of all ranks (also acts as a barrier).
+	 * This is a collective operation among the NUMA masters of all ranks.
+	 *
+	 * @param err The error on this domain
+	 * @param comm The MPI communicator
+	 * @return <code>SUCCESS</code> if all domains are successful, an error otherwise
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err, const mpi::MPIComm &comm)
+	{
+		int result = err;
+		if (!m_sync.max(result, totalDomains()))
+			return asagi::Grid::THREAD_ERROR;
+
+		if (comm.size() > 1) {
+			// The first domain communicates with all other ranks
+			if (domainId() == 0)
+				result = comm.syncError(static_cast<asagi::Grid::Error>(result));
+
+			asagi::Grid::Error syncErr = broadcast(result);
+			if (syncErr != asagi::Grid::SUCCESS)
+				return syncErr;
+		}
+
+		return static_cast<asagi::Grid::Error>(result);
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
diff --git a/threads/sync.h b/threads/sync.h
index d967643..ee4f68e 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -78,6 +78,9 @@ private:
 	/** Pointer to the broadcasted data */
 	void* m_data;
 
+	/** Current maximum in {@link max()} */
+	int m_max;
+
 public:
 	Sync()
 		: m_syncedThreads(0),
@@ -87,7 +90,8 @@ public:
 		  m_lastCondition(PTHREAD_COND_INITIALIZER),
 		  m_finishing(false),
 		  m_finishCondition(PTHREAD_COND_INITIALIZER),
-		  m_data(0L)
+		  m_data(0L),
+		  m_max(0)
 	{
 	}
 
@@ -239,6 +243,29 @@ public:
 
 		return endBarrier();
 	}
+
+	/**
+	 * Computes the maximum of all threads
+	 *
+	 * @param[in,out] value The value of this thread, the maximum up on return
+	 * @param numThreads Number of threads that take part
+	 * @return True on success, false otherwise
+	 */
+	bool max(int &value, unsigned int numThreads)
+	{
+		if (!startBarrier())
+			return false;
+
+		if (waiting() == 0 || value > m_max)
+			m_max = value;
+
+		if (!waitBarrier(numThreads))
+			return false;
+
+		value = m_max;
+
+		return endBarrier();
+	}
 };
 
 }
-- 
2.43.0


From f23ead9da02c944fe49837d5287f7f16d87c3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 12/33] fix: report a failing open to all threads, domains and
 ranks

---
 grid/grid.cpp             |  6 +----
 grid/level/blocked.h      |  3 +++
 grid/level/cachedist.h    |  5 +++-
 grid/level/fulldist.h     | 14 +++++-----
 grid/level/level.h        | 13 ++++++++++
 numa/nonuma.h             |  8 ++++++
 numa/numa.h               | 11 ++++++++
 numa/numacomm.h           | 18 ++++++++-----
 transfer/mpicache.h       | 10 ++++++--
 transfer/mpithreadcache.h | 54 +++++++++++++++++++--------------------
 transfer/mpithreadfull.h  | 15 +++++++----
 transfer/mpiwincache.h    | 13 +++++++---
 transfer/mpiwinfull.h     | 18 +++++++++----
 13 files changed, 128 insertions(+), 60 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index c3faeed..f72564d 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -241,11 +241,7 @@ asagi::Grid::Error grid::Grid::open(const char* filename, unsigned int level)
 	}
 
 	// Synchronize the return value (also acts as a barrier)
-	asagi::Grid::Error err2 = m_numa.broadcast(err);
-	if (err2 != asagi::Grid::SUCCESS)
-		return err2;
-
-	return err;
+	return m_numa.syncError(err);
 }
 
 unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..4989843 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -94,6 +94,9 @@ protected:
 			grid::ValuePosition valuePos)
 	{
 		asagi::Grid::Error err = Level<Type>::open(filename, varname, valuePos);
+
+		// Make sure no domain or rank continues alone
+		err = this->syncError(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 40f86d7..17a19be 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -107,6 +107,9 @@ public:
 				blockSize, timeDimension,
 				cacheSize, cacheHandSpread,
 				valuePos);
+
+		// Make sure no domain or rank continues alone
+		err = this->syncError(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
@@ -125,7 +128,7 @@ public:
 
 		// Other domains and ranks can access our data up on return. Thus, make sure
 		// that everything is initialized everywhere.
-		return this->numa().syncError(err, this->comm());
+		return this->syncError(err);
 	}
 
 	/**
diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 1d53af8..911b616 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -110,13 +110,15 @@ public:
 				blockSize, timeDimension,
 				cacheSize, cacheHandSpread,
 				valuePos);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
 
 		// Initialize the cache
-		err = Allocator::allocate(
-				this->typeSize() * this->totalBlockSize() * cacheSize,
-				m_cache);
+		if (err == asagi::Grid::SUCCESS)
+			err = Allocator::allocate(
+					this->typeSize() * this->totalBlockSize() * cacheSize,
+					m_cache);
+
+		// Make sure no domain or rank continues alone
+		err = this->syncError(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
@@ -140,7 +142,7 @@ public:
 
 		// Other domains and ranks can access our data up on return. Thus, make sure
 		// that everything is initialized everywhere.
-		return this->numa().syncError(err, this->comm());
+		return this->syncError(err);
 	}
 
 	/**
diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..4fb4854 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -270,6 +270,19 @@ protected:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Agrees on one error for all domains and ranks
+	 *
+	 * @see numa::NumaComm::syncError
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err)
+	{
+		if (m_numaComm == 0L)
+			return asagi::Grid::THREAD_ERROR;
+
+		return m_numaComm->syncError(err, comm());
+	}
+
 	/**
 	 * @return The MPI communicator
 	 */
diff --git a/numa/nonuma.h b/numa/nonuma.h
index 8c39aaa..f9cb7bd 100644
--- a/numa/nonuma.h
+++ b/numa/nonuma.h
@@ -127,6 +127,14 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Does nothing (not useful for one thread)
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err) const
+	{
+		return err;
+	}
+
 	NumaComm* createComm() const;
 
 };
diff --git a/numa/numa.h b/numa/numa.h
index 236a114..04bf12a 100644
--- a/numa/numa.h
+++ b/numa/numa.h
@@ -171,6 +171,17 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Agrees on one error for all threads (also acts as a barrier)
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err) const
+	{
+		int result = err;
+		if (!m_syncThreads.max(result, m_totalThreads))
+			return asagi::Grid::THREAD_ERROR;
+		return static_cast<asagi::Grid::Error>(result);
+	}
+
 	NumaComm* createComm() const;
 };
 
diff --git a/numa/numacomm.h b/numa/numacomm.h
index 2be2e6c..77a9105 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -160,15 +160,21 @@ public:
 	template<class Allocator, typename T>
 	asagi::Grid::Error allocate(unsigned long size, T* &data)
 	{
-		if (domainId() == 0) {
-			// Allocate the memory with the master thread
-			asagi::Grid::Error err = Allocator::allocate(size * totalDomains(), data);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+		// Allocate the memory with the master thread
+		asagi::Grid::Error allocErr = asagi::Grid::SUCCESS;
+		if (domainId() == 0)
+			allocErr = Allocator::allocate(size * totalDomains(), data);
+
+		asagi::Grid::Error err = broadcast(allocErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (allocErr != asagi::Grid::SUCCESS) {
+			data = 0L;
+			return allocErr;
 		}
 
 		// Broadcast the pointer to all domains
-		asagi::Grid::Error err = broadcast(data);
+		err = broadcast(data);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index f72578d..6701397 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -101,13 +101,19 @@ protected:
 		m_rankCacheSize = cacheSize * numaComm.totalDomains();
 
 		// Allocate the memory and broadcast the pointer
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
-			Allocator::allocate(
+			err = Allocator::allocate(
 					blockCount * totalDictEntrySize() * numaComm.totalDomains(),
 					m_dictionary);
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_dictionary);
+		// Make sure no domain or rank continues alone
+		err = numaComm.syncError(err, mpiComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_dictionary);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..de3032f 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -323,14 +323,15 @@ public:
 
 	virtual ~MPIThreadCache()
 	{
-		if (m_numaDomainId == 0 && m_blockInfoTag >= 0) {
-			delete [] m_cacheManager;
-
-			mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+		if (m_numaDomainId == 0) {
+			if (m_blockInfoTag >= 0) {
+				mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+			}
 
+			delete [] m_cacheManager;
 			delete [] m_mutexes;
 			delete m_infoMutex;
 			delete m_blockMutex;
@@ -363,8 +364,10 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
@@ -378,25 +381,17 @@ public:
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
 			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
 			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
+			if (err == asagi::Grid::SUCCESS)
+				err = mpi::CommThread::commThread
+					.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
+			if (err == asagi::Grid::SUCCESS)
+				err = mpi::CommThread::commThread
+					.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
+			if (err == asagi::Grid::SUCCESS)
+				err = mpi::CommThread::commThread
+					.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
 
 			m_tagOffset = mpiComm.reserveTags(3);
 
@@ -404,7 +399,12 @@ public:
 			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		// The other domains have to know about errors
+		err = numaComm.syncError(err, mpiComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 1199a1a..91bc69b 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -139,16 +139,21 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
 
-			m_sendRecvMutex = new threads::Mutex();
+			if (err == asagi::Grid::SUCCESS)
+				m_sendRecvMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_tag);
+		// The other domains have to know about errors
+		err = numaComm.syncError(err, mpiComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..30e1482 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -166,8 +166,10 @@ public:
 			return err;
 
 		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
@@ -180,7 +182,7 @@ public:
 				MPI_INFO_NULL,
 				mpiComm.comm(),
 				&m_dictWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 
 			// Create the MPI mutex
 			m_mpiMutex = new mpi::Mutex();
@@ -196,9 +198,14 @@ public:
 				MPI_INFO_NULL,
 				mpiComm.comm(),
 				&m_cacheWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 		}
 
+		// The other domains have to know about errors
+		err = numaComm.syncError(err, mpiComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		err = numaComm.broadcast(m_dictWinMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index b9bf6b0..4077d99 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -94,11 +94,13 @@ public:
 
 	virtual ~MPIWinFull()
 	{
-		if (m_numaDomainId == 0 && m_window != MPI_WIN_NULL) {
+		if (m_numaDomainId == 0) {
 			delete m_winMutex;
 
-			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-			MPI_Win_free(&m_window);
+			if (m_window != MPI_WIN_NULL) {
+				std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+				MPI_Win_free(&m_window);
+			}
 		}
 	}
 
@@ -123,6 +125,7 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
 			unsigned int typeSize = type.size();
 
@@ -137,10 +140,15 @@ public:
 					MPI_INFO_NULL,
 					mpiComm.comm(),
 					&m_window) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
+		// The other domains have to know about errors
+		err = numaComm.syncError(err, mpiComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_winMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From 805193111fff2046d9107bb066ad429872b11929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 13/33] fix: do not leave other threads waiting if the NUMA
 detection fails in one thread

---
 numa/numa.cpp | 21 +++++++++++++++++----
 numa/numa.h   |  3 +++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 469f4d2..7ba722b 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -48,7 +48,8 @@
 numa::Numa::Numa()
 	: m_totalThreads(1),
 	  m_initialized(false),
-	  m_keyError(false)
+	  m_keyError(false),
+	  m_numaError(false)
 {
 	if (pthread_key_create(&m_ptkey, 0L) != 0)
 		// remember this error
@@ -75,22 +76,28 @@ numa::Numa::~Numa()
 asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNumaDomains)
 {
 	if (m_initialized) {
+		if (m_numaError)
+			return asagi::Grid::NUMA_ERROR;
+
 		masterThread = m_masterThreads[threadId()];
 		return asagi::Grid::SUCCESS;
 	}
 
 	// Get the NUMA domain
+	// Errors are reported after the barrier, otherwise all other threads would wait
+	// forever
+	bool numaError = false;
 #ifndef __APPLE__
 	int cpu = sched_getcpu();
 	if (cpu < 0)
-		return asagi::Grid::NUMA_ERROR;
+		numaError = true;
 #endif
 #if defined(ASAGI_NONUMA) || defined(__APPLE__)
 	int domain = 0;
 #else // ASAGI_NONUMA || __APPLE__
-	int domain = numa_node_of_cpu(cpu);
+	int domain = (numaError ? -1 : numa_node_of_cpu(cpu));
 	if (domain < 0)
-		return asagi::Grid::NUMA_ERROR;
+		numaError = true;
 #endif // ASAGI_NONUMA || __APPLE__
 
 	// Lock all variables
@@ -130,6 +137,9 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 		masterThread = false;
 	}
 
+	if (numaError)
+		m_numaError = true;
+
 	// Last thread?
 	if (m_syncThreads.waiting() >= m_totalThreads-1)
 		m_initialized = true;
@@ -140,6 +150,9 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 	if (!m_syncThreads.endBarrier())
 		return asagi::Grid::THREAD_ERROR;
 
+	if (m_numaError)
+		return asagi::Grid::NUMA_ERROR;
+
 	// Check if the key was created successfully
 	if (m_keyError)
 		return asagi::Grid::THREAD_ERROR;
diff --git a/numa/numa.h b/numa/numa.h
index 04bf12a..fcb61db 100644
--- a/numa/numa.h
+++ b/numa/numa.h
@@ -95,6 +95,9 @@ private:
 	/** True, if the key could not be created */
 	bool m_keyError;
 
+	/** True, if the NUMA detection failed for one of the threads */
+	bool m_numaError;
+
 	/** Synchronization mechanism for the threads */
 	mutable threads::Sync m_syncThreads;
 
-- 
2.43.0


From 63cdd815b18999b16eff0b6b0abb8635b7b96ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 14/33] fix: opening a level must not copy or disturb the
 levels that are already open

---
 grid/simplecontainer.h | 6 +++---
 numa/numa.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..ac5aeeb 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -38,7 +38,7 @@
 #ifndef GRID_SIMPLECONTAINER_H
 #define GRID_SIMPLECONTAINER_H
 
-#include <vector>
+#include <deque>
 
 #include "typedcontainer.h"
 
@@ -54,8 +54,8 @@ template<class Level, class Type>
 class SimpleContainer : public TypedContainer<Type>
 {
 private:
-	/** All grids we control */
-	std::vector<Level> m_levels;
+	/** All grids we control (must not be copied once they are opened) */
+	std::deque<Level> m_levels;
 
 public:
 	/**
diff --git a/numa/numa.cpp b/numa/numa.cpp
index 7ba722b..b6c482f 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -80,7 +80,9 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 			return asagi::Grid::NUMA_ERROR;
 
 		masterThread = m_masterThreads[threadId()];
-		return asagi::Grid::SUCCESS;
+
+		// Nobody should use the grid anymore while it is modified
+		return barrier();
 	}
 
 	// Get the NUMA domain
-- 
2.43.0


From b2e1a3e1684c76ec3c7450baf2afa534b93cf738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 15/33] fix: getCounter ignored the level

---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index f72564d..f391aa9 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -253,7 +253,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From 71d77db0a6481015b42a857335bb19207b4d24bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 16/33] fix: receive the dictionary entry with the tag of this
 level

---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index de3032f..e8c7532 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -469,7 +469,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From 1cf4c07ab74a12da45248b70a7b7138788c1ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 17/33] fix: use a separate reply tag for each level with
 communication threads

---
 transfer/mpithreadfull.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 91bc69b..f7d76c8 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -180,7 +180,7 @@ public:
 
 		mpi::CommThread::commThread.send(m_tag, remoteRank, offset);
 
-		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, 0, m_comm, MPI_STATUS_IGNORE);
+		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, m_tag, m_comm, MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 
@@ -191,7 +191,7 @@ public:
 		int mpiResult; NDBG_UNUSED(mpiResult);
 
 		mpiResult = MPI_Send(const_cast<unsigned char*>(&m_data[blockId*m_blockSize*m_typeSize]),
-				m_blockSize, m_mpiType, sender, 0, m_comm);
+				m_blockSize, m_mpiType, sender, m_tag, m_comm);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 };
-- 
2.43.0


From 72503f677d0e976ce130e46b47e39722cf0e3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 18/33] fix: endless recursion in the typed accessors of array
 and struct grids

---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..1025c9c 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -143,6 +143,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversion of the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..d27e04d 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -214,6 +214,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversion of the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From c2ac05a20347d0027a932feed8747b12d5e06ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 19/33] fix: do not publish the size of array and struct types
 before the MPI type exists

---
 types/arraytype.h  | 6 +-----
 types/structtype.h | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 1025c9c..c468cdd 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -95,13 +95,11 @@ public:
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
 		// Lock the array size
-		m_lock.lock();
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
 			m_arraySize = arraySize;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
@@ -111,8 +109,6 @@ public:
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
 		}
diff --git a/types/structtype.h b/types/structtype.h
index d27e04d..b4f4708 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -144,13 +144,11 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
 			m_size = size;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			MPI_Datatype tmpType;
 
@@ -182,8 +180,6 @@ public:
 			m_types = 0L;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
 		}
-- 
2.43.0


From fd813a3705f44e0dd13545ae0922cc3376d0aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 20/33] fix: lock the MPI library in array and struct types and
 when closing a grid

---
 mpi/mpicomm.h      | 2 ++
 types/arraytype.h  | 7 ++++++-
 types/structtype.h | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index 868e3bc..7cf841f 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -147,6 +147,8 @@ public:
 	 */
 	void barrier() const
 	{
+		std::lock_guard<Lock> lock(mpiLock);
+
 		MPI_Barrier(m_comm);
 	}
 
diff --git a/types/arraytype.h b/types/arraytype.h
index c468cdd..6b8e0d1 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -44,6 +44,7 @@
 
 #include "basictype.h"
 #include "io/netcdfreader.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -79,8 +80,10 @@ public:
 	virtual ~ArrayType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 #endif // ASAGI_NOMPI
 	}
 
@@ -101,6 +104,8 @@ public:
 			m_arraySize = arraySize;
 
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
diff --git a/types/structtype.h b/types/structtype.h
index b4f4708..487f66b 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -43,6 +43,7 @@
 #include <mutex>
 
 #include "basictype.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -128,8 +129,10 @@ public:
 	virtual ~StructType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 
 		delete [] m_blockLength;
 		delete [] m_displacements;
@@ -150,6 +153,8 @@ public:
 			m_size = size;
 
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Datatype tmpType;
 
 			// Create the mpi datatype
-- 
2.43.0


From 6eef12cfb852173a980d58e64837fca6d9eb4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 21/33] fix: receive all messages before the receiver is
 unregistered

---
 mpi/commthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 750c4e7..40e7904 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -278,7 +278,9 @@ public:
 		else {
 			int recvRank;
 			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
-			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
+			// Synchronous send: The message is received before this function returns,
+			// i.e. before the receiver can be unregistered on the remote rank
+			MPI_Ssend(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
-- 
2.43.0


From 9e39bf233c73dec9c71d690177f71493be1202a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 22/33] fix: keep the sign of numeric parameters

---
 grid/grid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index f391aa9..732955b 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -200,9 +200,12 @@ void grid::Grid::setParam(const char* name, const char* value, unsigned int leve
 	utils::StringUtils::toUpper(n);
 	std::replace(n.begin(), n.end(), '-', '_');
 
-	// Convert non name values to upper case
+	// Convert non name values to upper case (and keep the sign of numbers)
 	std::string v = value;
 	if (n != "VARIABLE"
+			&& n != "TIME_DIMENSION"
+			&& n != "CACHE_SIZE"
+			&& n != "CACHE_HAND_SPREAD"
 			&& !utils::StringUtils::startsWith(n, "BLOCK_SIZE_")) {
 		utils::StringUtils::toUpper(v);
 		std::replace(v.begin(), v.end(), '-', '_');
-- 
2.43.0


From aa157c80d5171b9205ebefbb62aee346b68cb3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 23/33] fix: use the default block size of one in the time
 dimension

---
 grid/level/blocked.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index 4989843..0409fdf 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -106,21 +106,18 @@ protected:
 			timeDimension = -1;
 		}
 
-		// Set block size in time dimension
-		if ((timeDimension >= 0) && (blockSize[timeDimension] == 0)) {
-			logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
-			// C to Fortran mapping
-			m_blockSize[this->dimensions() - timeDimension - 1] = 1;
-		}
-
 		// Set default block size and calculate number of blocks and total block size
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
 				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
-			else if (blockSize[this->dimensions() - i - 1] < 0)
+				if (static_cast<int>(this->dimensions() - i - 1) == timeDimension) {
+					logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
+					m_blockSize[i] = 1;
+				} else
+					m_blockSize[i] = 64;
+			} else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
 			else
-- 
2.43.0


From 8eb6539b86b08bbd7df3ccee309d8a01a5dab6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 24/33] fix: do not compute an invalid index from positions
 that are not a number

---
 grid/level/level.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index 4fb4854..77ece37 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -371,9 +371,10 @@ protected:
 		for (int i = m_dims-1; i >= 0; i--) {
 			double x = round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]);
 
-			if (x < 0 || x >= m_size[i]) {
+			// Also catches NaNs
+			if (!(x >= 0) || x >= m_size[i]) {
 				logWarning() << "ASAGI: Coordinate in dimension" << (m_dims-i-1) << " is out of range. Fixing.";
-				if (x < 0)
+				if (!(x >= 0))
 					x = 0;
 				else
 					x = m_size[i]-1;
-- 
2.43.0


From a5ce286ed9989c4006f1b5fe7ad9cdf26fd51f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 25/33] fix: do not write out of bounds when reading a scalar
 variable

---
 io/netcdfreader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 9d377de..c166d71 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -208,7 +208,8 @@ public:
 
 		// The distance between 2 values in the internal representation
 		ptrdiff_t imap[MAX_DIMENSIONS];
-		imap[m_dimensions-1] = 1;
+		if (m_dimensions > 0)
+			imap[m_dimensions-1] = 1;
 		for (int i = m_dimensions-2; i >= 0; i--)
 			imap[i] = imap[i+1] * size[i+1];
 
-- 
2.43.0


From 6c9257004c6dfb8a71272c8a39a83d721d7038f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 26/33] fix: report an error for variables without any values

---
 grid/level/level.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/level/level.h b/grid/level/level.h
index 77ece37..158fe22 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -228,6 +228,9 @@ protected:
 		for (unsigned int i = 0; i < m_dims; i++) {
 			// Get dimension size
 			m_size[i] = m_inputFile->getSize(i);
+			if (m_size[i] == 0)
+				// There are no values we could return
+				return asagi::Grid::WRONG_SIZE;
 
 			// Get offset and scaling
 			m_offset[i] = m_inputFile->getOffset(i);
-- 
2.43.0


From b1048f8b214fe67cf10ce08a1027821bbcbba912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 27/33] fix: close the input file of a failed open

---
 grid/level/level.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index 158fe22..1398d5e 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -218,7 +218,8 @@ protected:
 
 		asagi::Grid::Error err;
 
-		// Open NetCDF file
+		// Open NetCDF file (close the file from a failed open first)
+		delete m_inputFile;
 		m_inputFile = new io::NetCdfReader(filename, comm().rank());
 		if ((err = m_inputFile->open(varname)) != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From 9ddfd74852265e709f72e83b76f35331cf41d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 28/33] fix: use the same error codes in the C and C++
 interface

---
 include/asagi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asagi.h b/include/asagi.h
index c9a6757..ae3a295 100644
--- a/include/asagi.h
+++ b/include/asagi.h
@@ -438,8 +438,8 @@ typedef enum {
 	ASAGI_VAR_NOT_FOUND,
 	ASAGI_WRONG_SIZE,
 	ASAGI_UNSUPPORTED_DIMENSIONS,
-	ASAGI_MULTIPLE_TOPGRIDS,
-	ASAGI_INVALID_VAR_SIZE
+	ASAGI_INVALID_VAR_SIZE,
+	ASAGI_MULTIPLE_TOPGRIDS
 } asagi_error;
 #endif
 
-- 
2.43.0


From ad117bb8e24ed71742201d0e5c43e94d2c460c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 29/33] fix: report read errors when opening a full grid

---
 grid/level/full.h  |  4 +++-
 io/netcdfreader.h  | 44 ++++++++++++++++++++++++++++----------------
 types/arraytype.h  |  4 ++--
 types/basictype.h  |  4 ++--
 types/structtype.h |  4 ++--
 5 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/grid/level/full.h b/grid/level/full.h
index a2f794d..e441860 100644
--- a/grid/level/full.h
+++ b/grid/level/full.h
@@ -119,9 +119,11 @@ public:
 				blockPos[j] *= this->blockSize(j);
 
 			// Load the block
-			this->type().load(this->inputFile(),
+			err = this->type().load(this->inputFile(),
 				blockPos, this->blockSize(),
 				&m_data[this->typeSize() * this->totalBlockSize() * i]);
+			if (err != asagi::Grid::SUCCESS)
+				return err;
 		}
 
 		this->closeInputFile();
diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index c166d71..1b6da23 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -190,9 +190,10 @@ public:
 	 * @param offset Offset of the block (at least {@link dimensions() values}
 	 *  values)
 	 * @param size Size of the block (at least {@link dimensions()} values)
+	 * @return NOT_OPEN if the block could not be read
 	 */
 	template<typename T>
-	void getBlock(void *block,
+	asagi::Grid::Error getBlock(void *block,
 		const size_t *offset,
 		const size_t *size)
 	{
@@ -214,8 +215,14 @@ public:
 			imap[i] = imap[i+1] * size[i+1];
 
 		std::lock_guard<threads::Mutex> lock(netcdfLock);
-		getVar(offset, actSize, size, imap,
+		int ncResult = getVar(offset, actSize, size, imap,
 			static_cast<T*>(block));
+
+		// NC_ERANGE: all values were read but not all could be represented
+		if (ncResult != NC_NOERR && ncResult != NC_ERANGE)
+			return asagi::Grid::NOT_OPEN;
+
+		return asagi::Grid::SUCCESS;
 	}
 	
 	/**
@@ -235,9 +242,10 @@ private:
 	 * @param blockSize The size of the memory block
 	 * @param imap The netCDF mapping parameter
 	 * @param buffer The buffer for the block
+	 * @return The error code from the netCDF library
 	 */
 	template<typename T>
-	void getVar(const size_t *offset, const size_t *size,
+	int getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, T *buffer);
 };
 
@@ -245,61 +253,63 @@ private:
  * @copydoc getVar\<T\>
  */
 template<> inline
-void NetCdfReader::getVar(const size_t *offset, const size_t *size,
+int NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, unsigned char *buffer)
 {
-	nc_get_varm_uchar(m_file, m_variable, offset, size, 0L, imap, buffer);
+	return nc_get_varm_uchar(m_file, m_variable, offset, size, 0L, imap, buffer);
 }
 
 /**
  * @copydoc getVar\<T\>
  */
 template<> inline
-void NetCdfReader::getVar(const size_t *offset, const size_t *size,
+int NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, int *buffer)
 {
-	nc_get_varm_int(m_file, m_variable, offset, size, 0L, imap, buffer);
+	return nc_get_varm_int(m_file, m_variable, offset, size, 0L, imap, buffer);
 }
 
 /**
  * @copydoc getVar\<T\>
  */
 template<> inline
-void NetCdfReader::getVar(const size_t *offset, const size_t *size,
+int NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, long *buffer)
 {
-	nc_get_varm_long(m_file, m_variable, offset, size, 0L, imap, buffer);
+	return nc_get_varm_long(m_file, m_variable, offset, size, 0L, imap, buffer);
 }
 
 /**
  * @copydoc getVar\<T\>
  */
 template<> inline
-void NetCdfReader::getVar(const size_t *offset, const size_t *size,
+int NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, float *buffer)
 {
-	nc_get_varm_float(m_file, m_variable, offset, size, 0L, imap, buffer);
+	return nc_get_varm_float(m_file, m_variable, offset, size, 0L, imap, buffer);
 }
 
 /**
  * @copydoc getVar\<T\>
  */
 template<> inline
-void NetCdfReader::getVar(const size_t *offset, const size_t *size,
+int NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, double *buffer)
 {
-	nc_get_varm_double(m_file, m_variable, offset, size, 0L, imap, buffer);
+	return nc_get_varm_double(m_file, m_variable, offset, size, 0L, imap, buffer);
 }
 
 /**
  * @copydoc getVar\<T\>
  */
 template<> inline
-void NetCdfReader::getVar(const size_t *offset, const size_t *size,
+int NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, void *buffer)
 {
 	// Read the data unmapped (netCDF does not support mapping for non-builtin data types)
-	nc_get_vara(m_file, m_variable, offset, size, buffer);
+	int ncResult = nc_get_vara(m_file, m_variable, offset, size, buffer);
+	if (ncResult != NC_NOERR)
+		return ncResult;
 
 	// Mapping required?
 	bool doMapping = false;
@@ -308,7 +318,7 @@ void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 			doMapping = true;
 
 	if (!doMapping)
-		return;
+		return NC_NOERR;
 
 	// Apply mapping ...
 	char* byteBuf = reinterpret_cast<char*>(buffer);
@@ -345,6 +355,8 @@ void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 			indexBuf += imap[i] * size[i];
 		}
 	}
+
+	return NC_NOERR;
 }
 
 }
diff --git a/types/arraytype.h b/types/arraytype.h
index 6b8e0d1..883d97c 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -136,12 +136,12 @@ public:
 	/**
 	 * @copydoc BasicType::load
 	 */
-	void load(io::NetCdfReader &file,
+	asagi::Grid::Error load(io::NetCdfReader &file,
 		const size_t *offset,
 		const size_t *size,
 		void *buf) const
 	{
-		file.getBlock<void>(buf, offset, size);
+		return file.getBlock<void>(buf, offset, size);
 	}
 
 	// Do not hide the conversion of the first element
diff --git a/types/basictype.h b/types/basictype.h
index b2b4ab4..f869698 100644
--- a/types/basictype.h
+++ b/types/basictype.h
@@ -65,12 +65,12 @@ public:
 	/**
 	 * Loads a block form the netCDF file into the buffer
 	 */
-	void load(io::NetCdfReader &file,
+	asagi::Grid::Error load(io::NetCdfReader &file,
 		const size_t *offset,
 		const size_t *size,
 		void *buf) const
 	{
-		file.getBlock<T>(buf, offset, size);
+		return file.getBlock<T>(buf, offset, size);
 	}
 
 #ifndef ASAGI_NOMPI
diff --git a/types/structtype.h b/types/structtype.h
index 487f66b..18f94ad 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -207,12 +207,12 @@ public:
 	/**
 	 * @copydoc BasicType::load
 	 */
-	void load(io::NetCdfReader &file,
+	asagi::Grid::Error load(io::NetCdfReader &file,
 		const size_t *offset,
 		const size_t *size,
 		void *buf) const
 	{
-		file.getBlock<void>(buf, offset, size);
+		return file.getBlock<void>(buf, offset, size);
 	}
 
 	// Do not hide the conversion of the first element
-- 
2.43.0


From 440caa170f361842c448165cb77b6de9b39906d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 30/33] fix: NetCdfReader::isOpen returned the opposite

---
 io/netcdfreader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 1b6da23..eed3204 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -115,7 +115,7 @@ public:
 	 */
 	bool isOpen() const
 	{
-		return m_file < 0;
+		return m_file >= 0;
 	}
 	
 	/**
-- 
2.43.0


From 8759692374391be2dedd5d13417ccb67e6bda182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 31/33] fix: do not use uninitialized coordinates if they
 cannot be read

---
 io/netcdfreader.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index eed3204..7096ef6 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -151,7 +151,8 @@ public:
 
 		double result;
 		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &result);
+		if (nc_get_var1_double(m_file, x, &index, &result) != NC_NOERR)
+			return 0; // Not a usable coordinate variable
 		return result;
 	}
 	
@@ -175,9 +176,11 @@ public:
 
 		double first, last;
 		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &first);
+		if (nc_get_var1_double(m_file, x, &index, &first) != NC_NOERR)
+			return 1; // Not a usable coordinate variable
 		index = size - 1;
-		nc_get_var1_double(m_file, x, &index, &last);
+		if (nc_get_var1_double(m_file, x, &index, &last) != NC_NOERR)
+			return 1;
 	
 		return (last - first) / (size - 1);
 	}
-- 
2.43.0


From 2a4377db306d6e7156d594491817504cb8aa7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 32/33] fix: free the memory of a failed open when the open is
 repeated

---
 grid/level/cache.h    | 5 +++++
 grid/level/full.h     | 5 +++++
 grid/level/fulldist.h | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/grid/level/cache.h b/grid/level/cache.h
index 52712dc..8ea5280 100644
--- a/grid/level/cache.h
+++ b/grid/level/cache.h
@@ -98,6 +98,11 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		// Free the memory from a failed open
+		if (this->numaDomainId() == 0)
+			this->numa().template free<Allocator>(m_cache);
+		m_cache = 0L;
+
 		// Allocate the cache memory
 		err = this->numa().template allocate<Allocator>(
 				this->typeSize() * this->totalBlockSize() * cacheSize,
diff --git a/grid/level/full.h b/grid/level/full.h
index e441860..b6a9cbd 100644
--- a/grid/level/full.h
+++ b/grid/level/full.h
@@ -97,6 +97,11 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		// Free the memory from a failed open
+		if (this->numaDomainId() == 0)
+			this->numa().template free<Allocator>(m_data);
+		m_data = 0L;
+
 		// Allocate the memory
 		err = this->numa().template allocate<Allocator>(
 				this->typeSize() * this->totalBlockSize() * this->localBlockCount(),
diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 911b616..6471b0d 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -111,6 +111,10 @@ public:
 				cacheSize, cacheHandSpread,
 				valuePos);
 
+		// Free the cache from a failed open
+		Allocator::free(m_cache);
+		m_cache = 0L;
+
 		// Initialize the cache
 		if (err == asagi::Grid::SUCCESS)
 			err = Allocator::allocate(
-- 
2.43.0


From cb97a69985903bd90bde6f658a08a9d03e9a7846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:45 +0000
Subject: [PATCH 33/33] fix: only one-dimensional variables hold the
 coordinates of a dimension

---
 io/netcdfreader.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 7096ef6..e9480bb 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -149,6 +149,11 @@ public:
 		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
 			return 0;
 
+		// Coordinate variables have exactly one dimension
+		int dims;
+		if (nc_inq_varndims(m_file, x, &dims) != NC_NOERR || dims != 1)
+			return 0;
+
 		double result;
 		size_t index = 0;
 		if (nc_get_var1_double(m_file, x, &index, &result) != NC_NOERR)
@@ -174,6 +179,11 @@ public:
 		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
 			return 1;
 
+		// Coordinate variables have exactly one dimension
+		int dims;
+		if (nc_inq_varndims(m_file, x, &dims) != NC_NOERR || dims != 1)
+			return 1;
+
 		double first, last;
 		size_t index = 0;
 		if (nc_get_var1_double(m_file, x, &index, &first) != NC_NOERR)
-- 
2.43.0

