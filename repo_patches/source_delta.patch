From 0bd42c571d48a4f56189c385fa0f78b3861c4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 01/33] fix: keep one partial receipt per processed transaction
 so that partial catch-up survives blocks with invalid transactions

---
 libethereum/Block.cpp | 56 ++++++++++++++++++++++++++-----------------
 libskale/State.cpp    |  4 ++++
 libskale/State.h      |  3 +++
 3 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/libethereum/Block.cpp b/libethereum/Block.cpp
index de58e24..4e9d67f 100644
--- a/libethereum/Block.cpp
+++ b/libethereum/Block.cpp
@@ -450,7 +450,9 @@ tuple< TransactionReceipts, unsigned > Block::syncEveryone(
     m_state = m_state.createStateModifyCopyAndPassLock();  // mainly for debugging
     TransactionReceipts saved_receipts = this->m_state.safePartialTransactionReceipts();
     if ( vecMissing ) {
-        assert( saved_receipts.size() == _transactions.size() - vecMissing->size() );
+        // there is one saved receipt for every transaction processed before PARTIAL CATCHUP,
+        // whether it was executed or found invalid
+        assert( saved_receipts.size() <= _transactions.size() );
     } else
         // NB! Not commit! Commit will be after 1st transaction!
         m_state.clearPartialTransactionReceipts();
@@ -460,42 +462,46 @@ tuple< TransactionReceipts, unsigned > Block::syncEveryone(
     for ( unsigned i = 0; i < _transactions.size(); ++i ) {
         Transaction const& tr = _transactions[i];
         try {
-            if ( vecMissing != nullptr ) {  // it's non-null only for PARTIAL CATCHUP
-
-                auto iterMissing = std::find_if( vecMissing->begin(), vecMissing->end(),
-                    [&tr]( const Transaction& trMissing ) -> bool {
-                        return trMissing.sha3() == tr.sha3();
-                    } );
-
-                if ( iterMissing == vecMissing->end() ) {
+            bool const isUnderpriced =
+                !tr.isInvalid() && !tr.hasExternalGas() && tr.gasPrice() < _gasPrice;
+
+            // vecMissing is non-null only for PARTIAL CATCHUP
+            if ( vecMissing != nullptr && i < saved_receipts.size() ) {
+                // this transaction was already processed before PARTIAL CATCHUP
+                // an executed transaction always uses some gas, a not executed one uses none
+                bool const wasExecuted = saved_receipts[i].cumulativeGasUsed() > gasUsed();
+                if ( wasExecuted ||
+                     isUnderpriced == SkipInvalidTransactionsPatch::isEnabledInWorkingBlock() ) {
                     m_transactions.push_back( tr );
                     m_transactionSet.insert( tr.sha3() );
-                    // HACK TODO We assume but don't check that accumulated receipts contain
-                    // exactly receipts of first n txns!
                     m_receipts.push_back( saved_receipts[i] );
                     receipts.push_back( saved_receipts[i] );
-                    continue;  // skip this transaction, it was already executed before PARTIAL
-                               // CATCHUP
-                }              // if
+                    if ( !wasExecuted )
+                        ++count_bad;
+                }
+                continue;
             }
 
             // TODO Move this checking logic into some single place - not in execute, of course
-            if ( !tr.isInvalid() && !tr.hasExternalGas() && tr.gasPrice() < _gasPrice ) {
+            if ( isUnderpriced ) {
                 LOG( m_logger ) << "Transaction " << tr.sha3() << " WouldNotBeInBlock: gasPrice "
                                 << tr.gasPrice() << " < " << _gasPrice;
 
+                // TODO deduplicate
+                // "bad" transaction receipt for failed transactions
+                TransactionReceipt const null_receipt =
+                    info().number() >= sealEngine()->chainParams().byzantiumForkBlock ?
+                        TransactionReceipt( 0, info().gasUsed(), LogEntries() ) :
+                        TransactionReceipt( EmptyTrie, info().gasUsed(), LogEntries() );
+
+                // will be written together with the next executed transaction
+                m_state.addPartialTransactionReceipt( null_receipt );
+
                 if ( SkipInvalidTransactionsPatch::isEnabledInWorkingBlock() ) {
                     // Add to the user-originated transactions that we've executed.
                     m_transactions.push_back( tr );
                     m_transactionSet.insert( tr.sha3() );
 
-                    // TODO deduplicate
-                    // "bad" transaction receipt for failed transactions
-                    TransactionReceipt const null_receipt =
-                        info().number() >= sealEngine()->chainParams().byzantiumForkBlock ?
-                            TransactionReceipt( 0, info().gasUsed(), LogEntries() ) :
-                            TransactionReceipt( EmptyTrie, info().gasUsed(), LogEntries() );
-
                     m_receipts.push_back( null_receipt );
                     receipts.push_back( null_receipt );
 
@@ -881,6 +887,8 @@ ExecutionResult Block::execute(
     std::pair< ExecutionResult, TransactionReceipt > resultReceipt{ ExecutionResult(),
         null_receipt };
 
+    bool const committing = _p == Permanence::Committed;
+
     try {
         if ( _t.isInvalid() )
             throw -1;  // will catch below
@@ -907,6 +915,10 @@ ExecutionResult Block::execute(
         resultReceipt.first.excepted = TransactionException::WouldNotBeInBlock;
     }  // catch
 
+    // keep one partial receipt for every processed transaction of the block
+    if ( committing && _p == Permanence::CommittedWithoutState )
+        m_state.addPartialTransactionReceipt( null_receipt );
+
     if ( _p == Permanence::Committed || _p == Permanence::CommittedWithoutState ||
          _p == Permanence::Uncommitted ) {
         // Add to the user-originated transactions that we've executed.
diff --git a/libskale/State.cpp b/libskale/State.cpp
index 3fdfb4e..a9a6b35 100644
--- a/libskale/State.cpp
+++ b/libskale/State.cpp
@@ -332,6 +332,10 @@ void State::clearPartialTransactionReceipts() {
     m_db_ptr->setPartialTransactionReceipts( blockReceipts.rlp() );
 }
 
+void State::addPartialTransactionReceipt( dev::eth::TransactionReceipt const& _receipt ) {
+    m_db_ptr->addReceiptToPartials( _receipt );
+}
+
 void State::populateFrom( eth::AccountMap const& _map ) {
     for ( auto const& addressAccountPair : _map ) {
         const Address& address = addressAccountPair.first;
diff --git a/libskale/State.h b/libskale/State.h
index 4e8d7b4..4b6879c 100644
--- a/libskale/State.h
+++ b/libskale/State.h
@@ -202,6 +202,9 @@ public:
     dev::h256 safeLastExecutedTransactionHash();
     dev::eth::TransactionReceipts safePartialTransactionReceipts();
     void clearPartialTransactionReceipts();
+    /// Remember the receipt of a processed transaction of the current block; it is written
+    /// to the database by the next commit.
+    void addPartialTransactionReceipt( dev::eth::TransactionReceipt const& _receipt );
 
     /// Populate the state from the given AccountMap. Just uses dev::eth::commit().
     void populateFrom( dev::eth::AccountMap const& _map );
-- 
2.43.0


From c7e8a40b8f351989bec9baf385841f2225eb5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 02/33] fix: repeat account and code deletions when a state
 commit is retried after a database error

---
 libskale/OverlayDB.cpp | 8 ++++++++
 libskale/OverlayDB.h   | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/libskale/OverlayDB.cpp b/libskale/OverlayDB.cpp
index 113cb99..c4e58c1 100644
--- a/libskale/OverlayDB.cpp
+++ b/libskale/OverlayDB.cpp
@@ -176,6 +176,11 @@ void OverlayDB::commit( const std::string& _debugCommitId ) {
             DEV_READ_GUARDED( x_this )
 #endif
             {
+                // a failed commit loses the whole batch, so deletions should be repeated too
+                if ( commitTry > 0 )
+                    for ( bytes const& key : m_killedKeys )
+                        m_db_face->kill( skale::slicing::toSlice( key ) );
+
                 for ( auto const& addressValuePair : m_cache ) {
                     h160 const& address = addressValuePair.first;
                     bytes const& value = addressValuePair.second;
@@ -240,6 +245,7 @@ void OverlayDB::commit( const std::string& _debugCommitId ) {
             m_cache.clear();
             m_auxiliaryCache.clear();
             m_storageCache.clear();
+            m_killedKeys.clear();
             m_db_face->revert();
         }
     } else {
@@ -286,6 +292,7 @@ void OverlayDB::killAuxiliary( const dev::h160& _address, _byte_ _space ) {
             if ( m_db_face->exists( skale::slicing::toSlice( key ) ) ) {
                 // NB! This is not committed! So, this can be reverted
                 m_db_face->kill( skale::slicing::toSlice( key ) );
+                m_killedKeys.push_back( key );
             } else {
                 ctrace << "Try to delete non existing key " << _address << "(" << _space << ")";
             }
@@ -474,6 +481,7 @@ void OverlayDB::kill( h160 const& _h ) {
             if ( m_db_face->exists( skale::slicing::toSlice( _h ) ) ) {
                 // NB! This is not committed! So, this can be reverted
                 m_db_face->kill( skale::slicing::toSlice( _h ) );
+                m_killedKeys.push_back( _h.asBytes() );
             } else {
                 ctrace << "Try to delete non existing key " << _h;
             }
diff --git a/libskale/OverlayDB.h b/libskale/OverlayDB.h
index 9b88138..1b28a2c 100644
--- a/libskale/OverlayDB.h
+++ b/libskale/OverlayDB.h
@@ -109,6 +109,8 @@ private:
     std::unordered_map< dev::h160, dev::bytes > m_cache;
     std::unordered_map< dev::h160, std::unordered_map< _byte_, dev::bytes > > m_auxiliaryCache;
     std::unordered_map< dev::h160, std::unordered_map< dev::h256, dev::h256 > > m_storageCache;
+    // keys deleted since the last commit
+    std::vector< dev::bytes > m_killedKeys;
     dev::s256 storageUsed_ = 0;
 
     std::shared_ptr< batched_io::db_face > m_db_face;
-- 
2.43.0


From 13e33684cf818fd08fdb59d544031d7640539d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 03/33] fix: don't lock m_pending_createMutex under the
 transaction queue lock

createBlock() holds m_pending_createMutex when it removes the block's
transactions from the queue, so a proposal requested at that moment
deadlocked with it.
---
 libethereum/SkaleHost.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/libethereum/SkaleHost.cpp b/libethereum/SkaleHost.cpp
index 0f925c7..7758b9c 100644
--- a/libethereum/SkaleHost.cpp
+++ b/libethereum/SkaleHost.cpp
@@ -434,18 +434,23 @@ ConsensusExtFace::transactions_vector SkaleHost::pendingTransactions(
     //
     m_debugTracer.tracepoint( "fetch_transactions" );
 
-    int counter = 0;
+    auto isBroadcasted = [this]( const Transaction& tx ) -> bool {
+        return m_tq.getCategory( tx.sha3() ) == 1;
+    };
+
+    // wait until there is something to take. Queue's lock is held during this call, and createBlock()
+    // goes into the queue with m_pending_createMutex locked, so don't lock it until we are back
+    m_tq.topTransactionsSync( 1, isBroadcasted );
+
+    std::lock_guard< std::recursive_mutex > lock( m_pending_createMutex );
+
     BlockHeader latestInfo = static_cast< const Interface& >( m_client ).blockInfo( LatestBlock );
 
-    Transactions txns = m_tq.topTransactionsSync(
-        _limit, [this, &to_delete, &counter, &latestInfo]( const Transaction& tx ) -> bool {
-            if ( m_tq.getCategory( tx.sha3() ) != 1 )  // take broadcasted
+    Transactions txns = m_tq.topTransactions(
+        _limit, [this, &to_delete, &isBroadcasted, &latestInfo]( const Transaction& tx ) -> bool {
+            if ( !isBroadcasted( tx ) )
                 return false;
 
-            // XXX TODO Invent good way to do this
-            if ( counter++ == 0 )
-                m_pending_createMutex.lock();
-
             if ( tx.verifiedOn < m_lastBlockWithBornTransactions )
                 try {
                     bool isMtmEnabled = m_client.chainParams().sChain.multiTransactionMode;
@@ -469,11 +474,6 @@ ConsensusExtFace::transactions_vector SkaleHost::pendingTransactions(
     a_fetch_transactions.finish();
     //
 
-    if ( counter++ == 0 )
-        m_pending_createMutex.lock();
-
-    std::lock_guard< std::recursive_mutex > lock( m_pending_createMutex, std::adopt_lock );
-
     // drop by block gas limit
     u256 blockGasLimit = this->m_client.chainParams().gasLimit;
     u256 gasAcc = 0;
-- 
2.43.0


From 8d9ce0164d1324798894c06b55957c812102473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 04/33] fix: lock the transaction queue exclusively when
 categories are changed

---
 libethereum/TransactionQueue.cpp | 2 +-
 libethereum/TransactionQueue.h   | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/libethereum/TransactionQueue.cpp b/libethereum/TransactionQueue.cpp
index 16e726e..e5ecdfd 100644
--- a/libethereum/TransactionQueue.cpp
+++ b/libethereum/TransactionQueue.cpp
@@ -175,7 +175,7 @@ Transactions TransactionQueue::topTransactions_WITH_LOCK(
 
 Transactions TransactionQueue::topTransactions(
     unsigned _limit, int _maxCategory, int _setCategory ) {
-    ReadGuard l( m_lock );
+    WriteGuard l( m_lock );
     return topTransactions_WITH_LOCK( _limit, _maxCategory, _setCategory );
 }
 
diff --git a/libethereum/TransactionQueue.h b/libethereum/TransactionQueue.h
index d089c40..eeb82c6 100644
--- a/libethereum/TransactionQueue.h
+++ b/libethereum/TransactionQueue.h
@@ -374,13 +374,12 @@ Transactions TransactionQueue::topTransactionsSync( unsigned _limit, Args... arg
 
 template < class... Args >
 Transactions TransactionQueue::topTransactionsSync( unsigned _limit, Args... args ) {
-    UpgradableGuard rGuard( m_lock );
+    // this version can change categories, so others should not read meanwhile
+    WriteGuard wGuard( m_lock );
     Transactions res;
 
     res = topTransactions_WITH_LOCK( _limit, args... );
-    // TODO Why wait_for needs exclusive lock?!
     if ( res.size() == 0 ) {
-        UpgradeGuard wGuard( rGuard );
         MICROPROFILE_SCOPEI( "TransactionQueue", "wait_for txns 100", MP_DIMGRAY );
         m_cond.wait_for( *wGuard.mutex(),
             boost::chrono::milliseconds( 100 ) );  // TODO 100 ms was chosen randomly. it's used in
-- 
2.43.0


From a626f59005060dc85a8f16ab465f8cdc86575c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 05/33] fix: take transactions of one account from the queue in
 order of their nonces (IS-348)

---
 libethereum/TransactionQueue.cpp | 26 +++++++++++++++++++-------
 libethereum/TransactionQueue.h   | 15 ++++++++++++---
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/libethereum/TransactionQueue.cpp b/libethereum/TransactionQueue.cpp
index e5ecdfd..a519344 100644
--- a/libethereum/TransactionQueue.cpp
+++ b/libethereum/TransactionQueue.cpp
@@ -191,17 +191,29 @@ Transactions TransactionQueue::topTransactions_WITH_LOCK(
 
     PriorityQueue::iterator my_begin = m_current.lower_bound( dummy );
 
-    for ( PriorityQueue::iterator transaction_ptr = my_begin;
-          top_transactions.size() < _limit && transaction_ptr != m_current.end();
-          ++transaction_ptr ) {
-        top_transactions.push_back( transaction_ptr->transaction );
-        if ( _setCategory >= 0 ) {
-            found.push_back( m_current.extract( transaction_ptr ) );
-        }
+    // take transactions of one account in order of their nonces, see the comment in the other version
+    std::unordered_map< Address, std::map< u256, PriorityQueue::iterator >::iterator > next;
+    std::vector< PriorityQueue::iterator > taken;
+    for ( PriorityQueue::iterator slot = my_begin;
+          taken.size() < _limit && slot != m_current.end(); ++slot ) {
+        Address from = slot->transaction.from();
+        auto& by_nonce = m_currentByAddressAndNonce.at( from );
+        auto& it = next.emplace( from, by_nonce.begin() ).first->second;
+        while ( it != by_nonce.end() && it->second->category > _maxCategory )
+            ++it;
+        if ( it == by_nonce.end() )
+            continue;
+        taken.push_back( it->second );
+        ++it;
     }
 
+    for ( PriorityQueue::iterator transaction_ptr : taken )
+        top_transactions.push_back( transaction_ptr->transaction );
+
     // set all at once
     if ( _setCategory >= 0 ) {
+        for ( PriorityQueue::iterator transaction_ptr : taken )
+            found.push_back( m_current.extract( transaction_ptr ) );
         for ( PriorityQueue::node_type& queue_node : found ) {
             queue_node.value().category = _setCategory;
             m_current.insert( std::move( queue_node ) );
diff --git a/libethereum/TransactionQueue.h b/libethereum/TransactionQueue.h
index eeb82c6..3c2620a 100644
--- a/libethereum/TransactionQueue.h
+++ b/libethereum/TransactionQueue.h
@@ -400,9 +400,18 @@ template < class Pred >
 Transactions TransactionQueue::topTransactions_WITH_LOCK( unsigned _limit, Pred _pred ) const {
     MICROPROFILE_SCOPEI( "TransactionQueue", "topTransactions_WITH_LOCK", MP_AZURE );
     Transactions ret;
-    for ( auto t = m_current.begin(); ret.size() < _limit && t != m_current.end(); ++t )
-        if ( _pred( t->transaction ) )
-            ret.push_back( t->transaction );
+    // Place of a transaction in m_current corresponds to the height it had at the moment of insertion
+    // and is out of date when account's first nonce changes (IS-348). So, it only says whose turn it is,
+    // and transactions of one account are always taken in order of their nonces
+    std::unordered_map< Address, std::map< u256, PriorityQueue::iterator >::const_iterator > next;
+    for ( auto slot = m_current.begin(); ret.size() < _limit && slot != m_current.end(); ++slot ) {
+        Address from = slot->transaction.from();
+        auto& it = next.emplace( from, m_currentByAddressAndNonce.at( from ).begin() ).first->second;
+        Transaction const& t = it->second->transaction;
+        ++it;
+        if ( _pred( t ) )
+            ret.push_back( t );
+    }
     return ret;
 }
 
-- 
2.43.0


From f0f2ee7fb710cad43cb18a257ba752183a1ede1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 06/33] fix: don't read past the end of receipts of a block
 that has been rotated out

---
 libethereum/BlockChain.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libethereum/BlockChain.h b/libethereum/BlockChain.h
index 7a7ae5f..0e7794a 100644
--- a/libethereum/BlockChain.h
+++ b/libethereum/BlockChain.h
@@ -212,7 +212,11 @@ public:
 
     /// Get the transaction by block hash and index;
     TransactionReceipt transactionReceipt( h256 const& _blockHash, unsigned _i ) const {
-        return receipts( _blockHash ).receipts[_i];
+        BlockReceipts br = receipts( _blockHash );
+        // the block can be rotated out of the database at any moment
+        if ( _i >= br.receipts.size() )
+            return bytesConstRef();
+        return br.receipts[_i];
     }
 
     /// Get the transaction receipt by transaction hash. Thread-safe.
-- 
2.43.0


From 452b32b6062e505ffd0bf164dc1df603b61f38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:24 +0000
Subject: [PATCH 07/33] fix: leave nothing of a transaction in the state
 database cache if its changes can't be committed

---
 libskale/OverlayDB.cpp |  3 +++
 libskale/State.cpp     | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/libskale/OverlayDB.cpp b/libskale/OverlayDB.cpp
index c4e58c1..48ddd59 100644
--- a/libskale/OverlayDB.cpp
+++ b/libskale/OverlayDB.cpp
@@ -407,6 +407,9 @@ void OverlayDB::rollback() {
     m_cache.clear();
     m_auxiliaryCache.clear();
     m_storageCache.clear();
+    m_killedKeys.clear();
+    if ( m_db_face )
+        m_db_face->revert();
 }
 
 void OverlayDB::clearDB() {
diff --git a/libskale/State.cpp b/libskale/State.cpp
index a9a6b35..00675d0 100644
--- a/libskale/State.cpp
+++ b/libskale/State.cpp
@@ -510,6 +510,11 @@ void State::commit( dev::eth::CommitBehaviour _commitBehaviour ) {
             BOOST_THROW_EXCEPTION( AttemptToWriteToStateInThePast() );
         }
 
+        // after a failure don't leave a part of the changes to readers and to the next commit
+        auto const rollback = []( OverlayDB* _db ) { _db->rollback(); };
+        std::unique_ptr< OverlayDB, decltype( rollback ) > rollbackGuard(
+            m_db_ptr.get(), rollback );
+
         for ( auto const& addressAccountPair : m_cache ) {
             const Address& address = addressAccountPair.first;
             const eth::Account& account = addressAccountPair.second;
@@ -546,6 +551,8 @@ void State::commit( dev::eth::CommitBehaviour _commitBehaviour ) {
                 }
             }
         }
+        rollbackGuard.release();
+
         m_db_ptr->updateStorageUsage( totalStorageUsed_ );
         m_db_ptr->commit( std::to_string( ++*m_storedVersion ) );
         m_currentVersion = *m_storedVersion;
@@ -1077,6 +1084,10 @@ std::pair< ExecutionResult, TransactionReceipt > State::execute( EnvInfo const&
         }
         // TODO: review logic|^
 
+        // what to return to if the changes can not be committed
+        h256 const previousLastTx = m_db_ptr->getLastExecutedTransactionHash();
+        bytes const previousReceipts = m_db_ptr->getPartialTransactionReceipts();
+
         h256 shaLastTx = _t.sha3();  // _t.hasSignature() ? _t.sha3() : _t.sha3(
                                      // dev::eth::WithoutSignature );
         this->m_db_ptr->setLastExecutedTransactionHash( shaLastTx );
@@ -1100,8 +1111,15 @@ std::pair< ExecutionResult, TransactionReceipt > State::execute( EnvInfo const&
         m_fs_ptr->commit();
 
         removeEmptyAccounts = _envInfo.number() >= _chainParams.EIP158ForkBlock;
-        commit( removeEmptyAccounts ? dev::eth::CommitBehaviour::RemoveEmptyAccounts :
-                                      dev::eth::CommitBehaviour::KeepEmptyAccounts );
+        try {
+            commit( removeEmptyAccounts ? dev::eth::CommitBehaviour::RemoveEmptyAccounts :
+                                          dev::eth::CommitBehaviour::KeepEmptyAccounts );
+        } catch ( ... ) {
+            // the transaction will not take effect, so leave nothing of it for the next commit
+            m_db_ptr->setLastExecutedTransactionHash( previousLastTx );
+            m_db_ptr->setPartialTransactionReceipts( previousReceipts );
+            throw;
+        }
 
         break;
     }
-- 
2.43.0


From 2d35add478f400260840dd5b71fdbe1cc67740c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:21 +0000
Subject: [PATCH 08/33] fix: detect a partially executed block whose last
 executed transaction is known as a not executed one

---
 libethereum/Client.cpp | 33 +++++++++++++++++++++++++++++++--
 libethereum/Client.h   |  3 +++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/libethereum/Client.cpp b/libethereum/Client.cpp
index b44638e..ca8c2c8 100644
--- a/libethereum/Client.cpp
+++ b/libethereum/Client.cpp
@@ -525,6 +525,35 @@ static std::string stat_transactions2str(
     return s;
 }
 
+// whether the most recent transaction executed in the imported blocks is this one
+// NB known transaction is not the same: blocks can contain transactions which were not executed
+bool Client::wasLastExecutedInChain( h256 const& _transactionHash ) const {
+    if ( !isKnownTransaction( _transactionHash ) )
+        return false;
+
+    for ( h256 hash = bc().currentHash(); hash != bc().genesisHash();
+          hash = bc().info( hash ).parentHash() ) {
+        // older blocks can be rotated out
+        if ( !bc().isKnown( hash ) )
+            return true;
+
+        TransactionHashes const hashes = bc().transactionHashes( hash );
+        TransactionReceipts const receipts = bc().receipts( hash ).receipts;
+        h256 lastExecuted;
+        u256 gasUsed = 0;
+        for ( size_t i = 0; i < hashes.size() && i < receipts.size(); ++i ) {
+            // an executed transaction always uses some gas, a not executed one uses none
+            if ( receipts[i].cumulativeGasUsed() > gasUsed )
+                lastExecuted = hashes[i];
+            gasUsed = receipts[i].cumulativeGasUsed();
+        }
+        if ( lastExecuted )
+            return lastExecuted == _transactionHash;
+    }
+
+    return false;
+}
+
 size_t Client::importTransactionsAsBlock(
     const Transactions& _transactions, u256 _gasPrice, uint64_t _timestamp ) {
     // HACK here was m_blockImportMutex - but now it is acquired in SkaleHost!!!
@@ -546,8 +575,8 @@ size_t Client::importTransactionsAsBlock(
     auto iterFound = std::find_if( _transactions.begin(), _transactions.end(),
         [&shaLastTx]( const Transaction& txWalk ) { return txWalk.sha3() == shaLastTx; } );
 
-    // detect partial ONLY if this transaction is not known!
-    bIsPartial = iterFound != _transactions.end() && !isKnownTransaction( shaLastTx );
+    // detect partial ONLY if this transaction was not executed in an imported block!
+    bIsPartial = iterFound != _transactions.end() && !wasLastExecutedInChain( shaLastTx );
 
     Transactions vecPassed, vecMissing;
     if ( bIsPartial ) {
diff --git a/libethereum/Client.h b/libethereum/Client.h
index 468aec1..2b913dc 100644
--- a/libethereum/Client.h
+++ b/libethereum/Client.h
@@ -366,6 +366,9 @@ public:
 #endif
 
 protected:
+    /// @returns whether this is the most recent transaction executed in the imported blocks
+    bool wasLastExecutedInChain( h256 const& _transactionHash ) const;
+
     /// As syncTransactionQueue - but get list of transactions explicitly
     /// returns number of successfullty executed transactions
     /// thread unsafe!!
-- 
2.43.0


From 45184807a72a8c9358bd14eea813c01be0f0ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 09/33] fix: keep an invalid transaction exactly one item of
 the block

---
 libethcore/TransactionBase.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libethcore/TransactionBase.cpp b/libethcore/TransactionBase.cpp
index 55dbeb1..257e8f6 100644
--- a/libethcore/TransactionBase.cpp
+++ b/libethcore/TransactionBase.cpp
@@ -341,6 +341,14 @@ TransactionBase::TransactionBase(
         } else {
             fillFromBytesLegacy( _rlpData, _checkSig, _allowInvalid );
         }
+
+        // raw data is streamed into a block as is, so it should make exactly one RLP item there
+        if ( isInvalid() && ( _rlpData.empty() || RLP( _rlpData, RLP::LaissezFaire ).actualSize() !=
+                                                      _rlpData.size() ) ) {
+            RLPStream s;
+            s.append( _rlpData.toBytes() );  // add "string" header
+            m_rawData = s.out();
+        }
     } catch ( ... ) {
         m_type = Type::Invalid;
         RLPStream s;
-- 
2.43.0


From bc488679117554ed5139008f4f4c2e9cfad48824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:34 +0000
Subject: [PATCH 10/33] fix: a crash while rotation deletes the oldest piece
 must not leave an unopenable database

The directory of the oldest piece was removed in place. A crash in the middle
of it could leave LevelDB's CURRENT file without the manifest it names (files
are removed in no particular order), and the node could not start any more.
Move the directory away first and finish the removal on the next start.
---
 libbatched-io/batched_rotating_db_io.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libbatched-io/batched_rotating_db_io.cpp b/libbatched-io/batched_rotating_db_io.cpp
index 35b1606..190c8fc 100644
--- a/libbatched-io/batched_rotating_db_io.cpp
+++ b/libbatched-io/batched_rotating_db_io.cpp
@@ -9,7 +9,12 @@ using namespace dev::db;
 namespace {
 const std::string current_piece_mark_key =
     "ead48ec575aaa7127384dee432fc1c02d9f6a22950234e5ecf59f35ed9f6e78d";
+
+// where a piece is moved before it is deleted
+boost::filesystem::path removedPath( const boost::filesystem::path& _piecePath ) {
+    return _piecePath.string() + ".removed";
 }
+}  // namespace
 
 rotating_db_io::rotating_db_io(
     const boost::filesystem::path& _path, size_t _nPieces, bool _archiveMode )
@@ -17,6 +22,8 @@ rotating_db_io::rotating_db_io(
     // open all
     for ( size_t i = 0; i < n_pieces; ++i ) {
         boost::filesystem::path path = base_path / ( std::to_string( i ) + ".db" );
+        // finish interrupted rotation
+        boost::filesystem::remove_all( removedPath( path ) );
         DatabaseFace* db = new LevelDB( path );
         pieces.emplace_back( db );
     }  // for
@@ -87,7 +94,12 @@ void rotating_db_io::rotate() {
         DatabaseFace* new_archive_db = new LevelDB( new_archive_path );
         pieces.emplace_back( new_archive_db );
     } else {
-        boost::filesystem::remove_all( oldest_path );  // delete oldest
+        // delete oldest; a partly removed piece could not be opened after a crash,
+        // so move it away first
+        boost::filesystem::path removed_path = removedPath( oldest_path );
+        boost::filesystem::remove_all( removed_path );
+        boost::filesystem::rename( oldest_path, removed_path );
+        boost::filesystem::remove_all( removed_path );
         test_crash_before_commit( "after_remove_oldest" );
     }
 
-- 
2.43.0


From 4ae16a06060c8f46b9be6271522c3135623e8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 11/33] fix: a topic filter no longer reads past the topics of
 an event

An event with fewer topics than the filter position asks for (LOG0 for the first one) was
compared against topics[size()]; eth_getLogs and the filters dereferenced memory behind
the topics vector.
---
 libethereum/ClientBase.cpp | 2 +-
 libethereum/LogFilter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libethereum/ClientBase.cpp b/libethereum/ClientBase.cpp
index 200fb29..ec7abb4 100644
--- a/libethereum/ClientBase.cpp
+++ b/libethereum/ClientBase.cpp
@@ -279,7 +279,7 @@ void ClientBase::prependLogsFromBlock( LogFilter const& _f, h256 const& _blockHa
                     for ( unsigned j = 0; j < 4; ++j ) {
                         auto topics = _f.getTopics()[j];
                         if ( !topics.empty() &&
-                             ( e.topics.size() < j || ( std::find( topics.begin(), topics.end(),
+                             ( e.topics.size() <= j || ( std::find( topics.begin(), topics.end(),
                                                             e.topics[j] ) == topics.end() ) ) ) {
                             isGood = false;
                         }
diff --git a/libethereum/LogFilter.cpp b/libethereum/LogFilter.cpp
index 6e98d87..c6a04b5 100644
--- a/libethereum/LogFilter.cpp
+++ b/libethereum/LogFilter.cpp
@@ -139,7 +139,7 @@ LogEntries LogFilter::matches( TransactionReceipt const& _m ) const {
                 goto continue2;
             for ( unsigned i = 0; i < 4; ++i )
                 if ( !m_topics[i].empty() &&
-                     ( e.topics.size() < i || find( m_topics[i].begin(), m_topics[i].end(),
+                     ( e.topics.size() <= i || find( m_topics[i].begin(), m_topics[i].end(),
                                                   e.topics[i] ) == m_topics[i].end() ) )
                     goto continue2;
             ret.push_back( e );
-- 
2.43.0


From fbf68572679339bc996566faf45a1a6456d0803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:58 +0000
Subject: [PATCH 12/33] fix: eth_getLogs returns nothing for a range after the
 last block

With fromBlock behind the head the logs of the head block were returned.
---
 libethereum/ClientBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libethereum/ClientBase.cpp b/libethereum/ClientBase.cpp
index ec7abb4..8aa9dda 100644
--- a/libethereum/ClientBase.cpp
+++ b/libethereum/ClientBase.cpp
@@ -219,6 +219,10 @@ LocalisedLogEntries ClientBase::logs( LogFilter const& _f ) const {
     unsigned begin = min( bc().number() + 1, ( unsigned ) _f.latest() );
     unsigned end = min( bc().number(), min( begin, ( unsigned ) _f.earliest() ) );
 
+    // the range starts after the last block, nothing of it exists yet
+    if ( _f.earliest() < LatestBlock && _f.earliest() > bc().number() )
+        return ret;
+
     if ( begin >= end && begin - end > ( uint64_t ) bc().chainParams().getLogsBlocksLimit )
         BOOST_THROW_EXCEPTION( TooBigResponse() );
 
-- 
2.43.0


From af50f878d696b6f1cd0411c64355910afb2caa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:58 +0000
Subject: [PATCH 13/33] fix: the changes of a log filter carry the index of the
 log in its block

eth_getFilterChanges reported logIndex 0 for every event.
---
 libethereum/Client.cpp    | 24 +++++++++++++++---------
 libethereum/LogFilter.cpp | 27 +++++++++++++++------------
 libethereum/LogFilter.h   |  1 +
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/libethereum/Client.cpp b/libethereum/Client.cpp
index ca8c2c8..eec0503 100644
--- a/libethereum/Client.cpp
+++ b/libethereum/Client.cpp
@@ -463,17 +463,23 @@ void Client::appendFromBlock( h256 const& _block, BlockPolarity _polarity, h256H
     m_specialFilters.at( ChainChangedFilter ).push_back( _block );
     for ( pair< h256 const, InstalledFilter >& i : m_filters ) {
         // acceptable number & looks like block may contain a matching log entry.
+        unsigned firstLogIndex = 0;
         for ( size_t j = 0; j < receipts.size(); j++ ) {
-            auto tr = receipts[j];
-            auto m = i.second.filter.matches( tr );
-            if ( m.size() ) {
-                auto transactionHash = transaction( _block, j ).sha3();
-                // filter catches them
-                for ( LogEntry const& l : m )
-                    i.second.changes_.push_back( LocalisedLogEntry( l, _block,
-                        ( BlockNumber ) bc().number( _block ), transactionHash, j, 0, _polarity ) );
-                io_changed.insert( i.first );
+            auto const& tr = receipts[j];
+            if ( i.second.filter.matches( tr.bloom() ) ) {
+                unsigned logIndex = firstLogIndex;
+                for ( LogEntry const& l : tr.log() ) {
+                    if ( i.second.filter.matches( l ) ) {
+                        // filter catches it
+                        i.second.changes_.push_back( LocalisedLogEntry( l, _block,
+                            ( BlockNumber ) bc().number( _block ), transaction( _block, j ).sha3(),
+                            j, logIndex, _polarity ) );
+                        io_changed.insert( i.first );
+                    }
+                    ++logIndex;
+                }
             }
+            firstLogIndex += tr.log().size();
         }
     }
 }
diff --git a/libethereum/LogFilter.cpp b/libethereum/LogFilter.cpp
index c6a04b5..21de35d 100644
--- a/libethereum/LogFilter.cpp
+++ b/libethereum/LogFilter.cpp
@@ -126,6 +126,18 @@ vector< LogBloom > LogFilter::bloomPossibilities() const {
     return ret;
 }
 
+bool LogFilter::matches( LogEntry const& _e ) const {
+    if ( !m_addresses.empty() &&
+         find( m_addresses.begin(), m_addresses.end(), _e.address ) == m_addresses.end() )
+        return false;
+    for ( unsigned i = 0; i < 4; ++i )
+        if ( !m_topics[i].empty() &&
+             ( _e.topics.size() <= i || find( m_topics[i].begin(), m_topics[i].end(),
+                                            _e.topics[i] ) == m_topics[i].end() ) )
+            return false;
+    return true;
+}
+
 LogEntries LogFilter::matches( TransactionReceipt const& _m ) const {
     // there are no addresses or topics to filter
     if ( isRangeFilter() )
@@ -133,17 +145,8 @@ LogEntries LogFilter::matches( TransactionReceipt const& _m ) const {
 
     LogEntries ret;
     if ( matches( _m.bloom() ) )
-        for ( LogEntry const& e : _m.log() ) {
-            if ( !m_addresses.empty() &&
-                 find( m_addresses.begin(), m_addresses.end(), e.address ) == m_addresses.end() )
-                goto continue2;
-            for ( unsigned i = 0; i < 4; ++i )
-                if ( !m_topics[i].empty() &&
-                     ( e.topics.size() <= i || find( m_topics[i].begin(), m_topics[i].end(),
-                                                  e.topics[i] ) == m_topics[i].end() ) )
-                    goto continue2;
-            ret.push_back( e );
-        continue2:;
-        }
+        for ( LogEntry const& e : _m.log() )
+            if ( matches( e ) )
+                ret.push_back( e );
     return ret;
 }
diff --git a/libethereum/LogFilter.h b/libethereum/LogFilter.h
index 6df0bd1..8f45edd 100644
--- a/libethereum/LogFilter.h
+++ b/libethereum/LogFilter.h
@@ -71,6 +71,7 @@ public:
 
     bool matches( LogBloom _bloom ) const;
     bool matches( Block const& _b, unsigned _i ) const;
+    bool matches( LogEntry const& _e ) const;
     LogEntries matches( TransactionReceipt const& _r ) const;
 
     LogFilter address( Address _a ) {
-- 
2.43.0


From 0552177f36b00aadd7c940a18d081b8bc31d37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:58 +0000
Subject: [PATCH 14/33] fix: uninstalling a filter does not silence others with
 the same criteria

The reference count of a shared filter was never increased.
---
 libethereum/ClientBase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libethereum/ClientBase.cpp b/libethereum/ClientBase.cpp
index 8aa9dda..cc364f3 100644
--- a/libethereum/ClientBase.cpp
+++ b/libethereum/ClientBase.cpp
@@ -308,10 +308,13 @@ unsigned ClientBase::installWatch(
     h256 h = _f.sha3();
     {
         Guard l( x_filtersWatches );
-        if ( !m_filters.count( h ) ) {
+        auto it = m_filters.find( h );
+        if ( it == m_filters.end() ) {
             LOG( m_loggerWatch ) << "FFF" << _f << h;
             m_filters.insert( make_pair( h, _f ) );
-        }
+        } else
+            // one more watch shares the filter
+            ++it->second.refCount;
     }
     return installWatch( h, _r, fnOnNewChanges, isWS );
 }
-- 
2.43.0


From a4a27d59b7a428c73a6b6e16e09c002ba18eed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:58 +0000
Subject: [PATCH 15/33] fix: the id of an uninstalled filter is not given to
 another client

After the newest filter was uninstalled or expired, the next one got its id, and the old
holder polled away the changes of the new one.
---
 libethereum/ClientBase.cpp | 2 +-
 libethereum/ClientBase.h   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/libethereum/ClientBase.cpp b/libethereum/ClientBase.cpp
index cc364f3..a5f27ce 100644
--- a/libethereum/ClientBase.cpp
+++ b/libethereum/ClientBase.cpp
@@ -324,7 +324,7 @@ unsigned ClientBase::installWatch(
     unsigned ret;
     {
         Guard l( x_filtersWatches );
-        ret = m_watches.size() ? m_watches.rbegin()->first + 1 : 0;
+        ret = m_nextWatchId++;
         m_watches[ret] = ClientWatch( isWS, _h, _r, fnOnNewChanges, ret );
         LOG( m_loggerWatch ) << "+++" << ret << _h;
     }
diff --git a/libethereum/ClientBase.h b/libethereum/ClientBase.h
index 2790b4e..7303c04 100644
--- a/libethereum/ClientBase.h
+++ b/libethereum/ClientBase.h
@@ -216,6 +216,7 @@ protected:
     ///< The dictionary of special filters and their additional data
     std::map< unsigned, ClientWatch > m_watches;  ///< Each and every watch - these reference a
                                                   ///< filter.
+    unsigned m_nextWatchId = 0;  ///< Ids are never reused: their old holder may still poll.
 
     Logger m_loggerWatch{ createLogger( VerbosityDebug, "watch" ) };
 
-- 
2.43.0


From ac04a827d42db2510dbece7c6c3b7c0637aca726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:58 +0000
Subject: [PATCH 16/33] fix: pieces of the archived block database are searched
 newest first

An older archive was searched before newer ones, so old versions of records (block bloom
chunks) were found.
---
 libbatched-io/batched_rotating_db_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libbatched-io/batched_rotating_db_io.cpp b/libbatched-io/batched_rotating_db_io.cpp
index 190c8fc..21101c1 100644
--- a/libbatched-io/batched_rotating_db_io.cpp
+++ b/libbatched-io/batched_rotating_db_io.cpp
@@ -67,8 +67,9 @@ rotating_db_io::rotating_db_io(
             if ( !boost::filesystem::exists( path ) )
                 break;
 
+            // newest archive goes first, right after the ring
             DatabaseFace* db = new LevelDB( path );
-            pieces.emplace_back( db );
+            pieces.emplace( pieces.begin() + n_pieces, db );
         }  // for
     }      // archive_mode
 }
@@ -92,7 +93,8 @@ void rotating_db_io::rotate() {
         boost::filesystem::rename( oldest_path, new_archive_path );
         test_crash_before_commit( "after_rename_oldest" );
         DatabaseFace* new_archive_db = new LevelDB( new_archive_path );
-        pieces.emplace_back( new_archive_db );
+        // newer than other archives
+        pieces.emplace( pieces.begin() + n_pieces - 1, new_archive_db );
     } else {
         // delete oldest; a partly removed piece could not be opened after a crash,
         // so move it away first
-- 
2.43.0


From cad33783f7c03c72a2f7bacb86e36a4482aa1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:17 +0000
Subject: [PATCH 17/33] fix: eth_getLogs does not return events with the hash
 of an empty transaction

When the block was rotated out of the database between the reads of its receipts and of its
body, its events were returned with a wrong transaction hash and block number.
---
 libethereum/ClientBase.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libethereum/ClientBase.cpp b/libethereum/ClientBase.cpp
index a5f27ce..f4c19d9 100644
--- a/libethereum/ClientBase.cpp
+++ b/libethereum/ClientBase.cpp
@@ -260,16 +260,22 @@ LocalisedLogEntries ClientBase::logs( LogFilter const& _f ) const {
 
 void ClientBase::prependLogsFromBlock( LogFilter const& _f, h256 const& _blockHash,
     BlockPolarity _polarity, LocalisedLogEntries& io_logs ) const {
+    auto details = bc().details( _blockHash );
+    auto hashes = bc().transactionHashes( _blockHash );
     auto receipts = bc().receipts( _blockHash ).receipts;
+    // the block can be rotated out of the database at any moment
+    if ( !details || hashes.empty() )
+        return;
+    auto blockNumber = ( BlockNumber ) details.number;
+
     unsigned logIndex = 0;
     for ( size_t i = 0; i < receipts.size(); i++ ) {
         TransactionReceipt receipt = receipts[i];
-        auto th = transaction( _blockHash, i ).sha3();
+        auto th = i < hashes.size() ? hashes[i] : Transaction().sha3();
         if ( _f.isRangeFilter() ) {
             for ( const auto& e : receipt.log() ) {
                 io_logs.insert( io_logs.begin(),
-                    LocalisedLogEntry( e, _blockHash, ( BlockNumber ) bc().number( _blockHash ), th,
-                        i, logIndex++, _polarity ) );
+                    LocalisedLogEntry( e, _blockHash, blockNumber, th, i, logIndex++, _polarity ) );
             }
             continue;
         }
@@ -290,8 +296,7 @@ void ClientBase::prependLogsFromBlock( LogFilter const& _f, h256 const& _blockHa
                     }
                     if ( isGood )
                         io_logs.insert(
-                            io_logs.begin(), LocalisedLogEntry( e, _blockHash,
-                                                 ( BlockNumber ) bc().number( _blockHash ), th, i,
+                            io_logs.begin(), LocalisedLogEntry( e, _blockHash, blockNumber, th, i,
                                                  logIndex++, _polarity ) );
                     else
                         ++logIndex;
-- 
2.43.0


From 9948c557ab62fd271d224257c8264c30947e85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 18/33] fix: a transaction is checked and queued under one lock
 with respect to block import

importTransaction() checked the transaction against the state of the last block and
queued it after releasing the block import mutex. If a block was imported in between,
an already executed transaction could be queued (and proposed and broadcast) again, and
a transaction with the next nonce could be left among future ones forever.
---
 libethereum/Client.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/libethereum/Client.cpp b/libethereum/Client.cpp
index eec0503..63854b0 100644
--- a/libethereum/Client.cpp
+++ b/libethereum/Client.cpp
@@ -1196,30 +1196,35 @@ h256 Client::importTransaction( Transaction const& _t ) {
     // the latest block in the client's blockchain. This can throw but
     // we'll catch the exception at the RPC level.
 
-    // throws in case of error
-    State state;
-    u256 gasBidPrice;
+    // recover the sender (it is remembered) before taking the mutex
+    _t.safeSender();
 
+    ImportResult res;
+
+    // Transaction should be queued before the next block is imported. Otherwise it could be executed
+    // or its nonce could become current in between, and the queue would keep an already executed
+    // transaction or consider a transaction that is ready to be executed as a future one.
     DEV_GUARDED( m_blockImportMutex ) {
-        state = this->state().createStateReadOnlyCopy();
-        gasBidPrice = this->gasBidPrice();
+        State state = this->state().createStateReadOnlyCopy();
+        u256 gasBidPrice = this->gasBidPrice();
 
         // We need to check external gas under mutex to be sure about current block number
         // correctness
         const_cast< Transaction& >( _t ).checkOutExternalGas(
             chainParams(), bc().info().timestamp(), number() );
-    }
 
-    Executive::verifyTransaction( _t, bc().info().timestamp(),
-        bc().number() ? this->blockInfo( bc().currentHash() ) : bc().genesis(), state,
-        chainParams(), 0, gasBidPrice, chainParams().sChain.multiTransactionMode );
+        // throws in case of error
+        Executive::verifyTransaction( _t, bc().info().timestamp(),
+            bc().number() ? this->blockInfo( bc().currentHash() ) : bc().genesis(), state,
+            chainParams(), 0, gasBidPrice, chainParams().sChain.multiTransactionMode );
 
-    ImportResult res;
-    if ( chainParams().sChain.multiTransactionMode && state.getNonce( _t.sender() ) < _t.nonce() &&
-         m_tq.maxCurrentNonce( _t.sender() ) != _t.nonce() ) {
-        res = m_tq.import( _t, IfDropped::Ignore, true );
-    } else {
-        res = m_tq.import( _t );
+        if ( chainParams().sChain.multiTransactionMode &&
+             state.getNonce( _t.sender() ) < _t.nonce() &&
+             m_tq.maxCurrentNonce( _t.sender() ) != _t.nonce() ) {
+            res = m_tq.import( _t, IfDropped::Ignore, true );
+        } else {
+            res = m_tq.import( _t );
+        }
     }
 
     switch ( res ) {
-- 
2.43.0


From ca76aef6b4e672d5b30249ccf0e44e528f76dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:16 +0000
Subject: [PATCH 19/33] fix: transactions finalized by other nodes make
 following future transactions current

A future transaction whose missing predecessor was executed in a block proposed by another
node, without having passed through this node's queue, stayed among future transactions
and was never proposed or broadcast.
---
 libethereum/SkaleHost.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libethereum/SkaleHost.cpp b/libethereum/SkaleHost.cpp
index 7758b9c..fa499b0 100644
--- a/libethereum/SkaleHost.cpp
+++ b/libethereum/SkaleHost.cpp
@@ -708,6 +708,14 @@ void SkaleHost::createBlock( const ConsensusExtFace::transactions_vector& _appro
         m_debugTracer.tracepoint( "import_block" );
 
         n_succeeded = m_client.importTransactionsAsBlock( out_txns, _gasPrice, _timeStamp );
+
+        // transactions we did not propose could fill a gap before future transactions in the queue
+        if ( haveConsensusBorn ) {
+            State state = m_client.state().createStateReadOnlyCopy();
+            for ( const Transaction& t : out_txns )
+                if ( !t.isInvalid() && state.getNonce( t.safeSender() ) == t.nonce() + 1 )
+                    m_tq.dropGood( t );
+        }
     }  // m_blockImportMutex
 
     if ( n_succeeded != out_txns.size() )
-- 
2.43.0


From 9a89117db11405f88435bc63c194f07f9ee5bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:09 +0000
Subject: [PATCH 20/33] fix: a transaction does not start the client again
 while it is being stopped

---
 libethereum/Client.cpp | 11 ++++++++++-
 libethereum/Client.h   |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libethereum/Client.cpp b/libethereum/Client.cpp
index 63854b0..d64d54e 100644
--- a/libethereum/Client.cpp
+++ b/libethereum/Client.cpp
@@ -166,6 +166,11 @@ void Client::stopWorking() {
     //    if ( !Worker::isWorking() )
     //        return;
 
+    {
+        std::lock_guard< std::mutex > lock( m_autoStartMutex );
+        m_stopRequested = true;
+    }
+
     Worker::stopWorking();
 
     if ( m_skaleHost )
@@ -1097,7 +1102,11 @@ void Client::checkWatchGarbage() {
 }
 
 void Client::prepareForTransaction() {
-    startWorking();
+    // a transaction may come (e.g. from another node) when the client is being stopped already:
+    // it must not make it work again
+    std::lock_guard< std::mutex > lock( m_autoStartMutex );
+    if ( !m_stopRequested )
+        startWorking();
 }
 
 
diff --git a/libethereum/Client.h b/libethereum/Client.h
index 2b913dc..742b2d3 100644
--- a/libethereum/Client.h
+++ b/libethereum/Client.h
@@ -519,6 +519,9 @@ protected:
 
     mutable Mutex m_blockImportMutex;  /// synchronize state and latest block update
 
+    std::mutex m_autoStartMutex;   ///< Lock on m_stopRequested and on starting by a transaction.
+    bool m_stopRequested = false;  ///< A transaction must not start the client anymore.
+
     bool remoteActive() const;     ///< Is there an active and valid remote worker?
     bool m_remoteWorking = false;  ///< Has the remote worker recently been reset?
     std::atomic< bool > m_needStateReset = { false };     ///< Need reset working state to premin on
-- 
2.43.0


From 6029b702c1b09e113e39d54fb206692cdc2a16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:07 +0000
Subject: [PATCH 21/33] fix: deletion of an old snapshot can be continued after
 it was interrupted

---
 libskale/SnapshotManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libskale/SnapshotManager.cpp b/libskale/SnapshotManager.cpp
index 1101b52..59622de 100644
--- a/libskale/SnapshotManager.cpp
+++ b/libskale/SnapshotManager.cpp
@@ -367,6 +367,9 @@ void SnapshotManager::leaveNLastSnapshots( unsigned n ) {
         if ( i++ > n ) {
             const fs::path& path = p.second;
             for ( const string& v : coreVolumes ) {
+                // it can be deleted already if previous attempt was interrupted
+                if ( !fs::exists( path / v ) )
+                    continue;
                 if ( btrfs.subvolume._delete( ( path / v ).c_str() ) ) {
                     throw CannotPerformBtrfsOperation( btrfs.last_cmd(), btrfs.strerror() );
                 }
-- 
2.43.0


From e8132ce75babcefdb4422d000af430f013f2e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:07 +0000
Subject: [PATCH 22/33] fix: snapshot hash file is created completely or not at
 all

---
 libskale/SnapshotManager.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libskale/SnapshotManager.cpp b/libskale/SnapshotManager.cpp
index 59622de..df9f1cf 100644
--- a/libskale/SnapshotManager.cpp
+++ b/libskale/SnapshotManager.cpp
@@ -802,9 +802,14 @@ void SnapshotManager::computeSnapshotHash( unsigned _blockNumber, bool is_checki
 
     try {
         std::lock_guard< std::mutex > lock( hashFileMutex );
-        std::ofstream out( hash_file );
-        out.clear();
+        // the file must not be seen empty or partly written, even if we are killed right here
+        std::string tmp_file = hash_file + ".tmp";
+        std::ofstream out( tmp_file );
         out << hash;
+        out.close();
+        if ( !out )
+            throw std::runtime_error( "Cannot write " + tmp_file );
+        fs::rename( tmp_file, hash_file );
     } catch ( const std::exception& ex ) {
         std::throw_with_nested( SnapshotManager::CannotCreate( hash_file ) );
     }
-- 
2.43.0


From 0f8b910dfc336cca869bc8a52d1c775a1294b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:07 +0000
Subject: [PATCH 23/33] fix: hash of the snapshot of block 0 is computed after
 a restart if it is absent

---
 libethereum/SnapshotAgent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libethereum/SnapshotAgent.cpp b/libethereum/SnapshotAgent.cpp
index 68e0551..4c9bef2 100644
--- a/libethereum/SnapshotAgent.cpp
+++ b/libethereum/SnapshotAgent.cpp
@@ -221,7 +221,9 @@ void SnapshotAgent::doSnapshotAndComputeHash( unsigned _blockNumber ) {
         m_snapshotManager->doSnapshot( _blockNumber );
     } catch ( SnapshotManager::SnapshotPresent& ex ) {
         LOG( m_logger ) << "0 block snapshot is already present. Skipping.";
-        return;
+        // but its hash can be absent if we were stopped before it was computed
+        if ( m_snapshotManager->isSnapshotHashPresent( _blockNumber ) )
+            return;
     }
 
     m_snapshotManager->computeSnapshotHash( _blockNumber );
-- 
2.43.0


From cc7c24ac288cc2d46d3ba6f01cdada390a299527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:07 +0000
Subject: [PATCH 24/33] fix: snapshot of the last imported block is not lost if
 node is killed before doing it

---
 libethereum/Client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libethereum/Client.cpp b/libethereum/Client.cpp
index d64d54e..8f7604c 100644
--- a/libethereum/Client.cpp
+++ b/libethereum/Client.cpp
@@ -316,6 +316,11 @@ void Client::init( WithExisting _forceAction, u256 _networkId ) {
     if ( number() ) {
         m_snapshotAgent->init( number(), blockInfo( hashFromNumber( 1 ) ).timestamp() );
         m_snapshotAgentInited = true;
+        // if we were killed after the last block was imported but before its snapshot was done
+        // then do it now - snapshot of the next block would be different from all other nodes
+        int64_t timestamp = blockInfo( hashFromNumber( number() ) ).timestamp();
+        m_snapshotAgent->finishHashComputingAndUpdateHashesIfNeeded( timestamp );
+        m_snapshotAgent->doSnapshotIfNeeded( number(), timestamp );
     }
 
     SchainPatch::init( chainParams() );
-- 
2.43.0


From a29ac1f96e80999adc9ac405a555cacb037a7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:27 +0000
Subject: [PATCH 25/33] fix: votes of nodes for a snapshot hash count only if
 they were received and verified

---
 libskale/SnapshotHashAgent.cpp | 25 +++++++++++++++++++------
 libskale/SnapshotHashAgent.h   |  2 ++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/libskale/SnapshotHashAgent.cpp b/libskale/SnapshotHashAgent.cpp
index 4afc006..75bb633 100644
--- a/libskale/SnapshotHashAgent.cpp
+++ b/libskale/SnapshotHashAgent.cpp
@@ -73,8 +73,8 @@ void SnapshotHashAgent::readPublicKeyFromConfig() {
     this->commonPublicKey_.Z = libff::alt_bn128_Fq2::one();
 }
 
-size_t SnapshotHashAgent::verifyAllData() const {
-    size_t verified = 0;
+std::vector< bool > SnapshotHashAgent::verifyData() const {
+    std::vector< bool > verified( this->n_, false );
     for ( size_t i = 0; i < this->n_; ++i ) {
         if ( this->chainParams_.nodeInfo.id == this->chainParams_.sChain.nodes.at( i ).id ) {
             continue;
@@ -92,7 +92,7 @@ size_t SnapshotHashAgent::verifyAllData() const {
                 cerror << ex.what();
             }
 
-            verified += is_verified;
+            verified[i] = is_verified;
             if ( !is_verified ) {
                 cerror << "WARNING "
                        << " Signature from " + std::to_string( i ) +
@@ -105,10 +105,17 @@ size_t SnapshotHashAgent::verifyAllData() const {
     return verified;
 }
 
+size_t SnapshotHashAgent::verifyAllData() const {
+    const std::vector< bool > verified = this->verifyData();
+    return std::count( verified.begin(), verified.end(), true );
+}
+
 bool SnapshotHashAgent::voteForHash() {
     std::map< dev::h256, size_t > map_hash;
 
-    if ( 3 * this->verifyAllData() < 2 * this->n_ + 1 && urlToDownloadSnapshotFrom_.empty() ) {
+    const std::vector< bool > verified = this->verifyData();
+    const size_t verifiedCount = std::count( verified.begin(), verified.end(), true );
+    if ( 3 * verifiedCount < 2 * this->n_ + 1 && urlToDownloadSnapshotFrom_.empty() ) {
         return false;
     }
 
@@ -119,18 +126,24 @@ bool SnapshotHashAgent::voteForHash() {
             continue;
         }
 
+        // only verified votes count
+        if ( !verified.at( i ) ) {
+            continue;
+        }
+
         map_hash[this->hashes_.at( i )] += 1;
     }
 
     std::map< dev::h256, size_t >::iterator it;
     it = std::find_if( map_hash.begin(), map_hash.end(),
         [this]( const std::pair< dev::h256, size_t > p ) { return 3 * p.second > 2 * this->n_; } );
-    cnote << "Snapshot hash is: " << ( *it ).first << ". Verifying it...";
 
     if ( it == map_hash.end() ) {
         throw NotEnoughVotesException( "note enough votes to choose hash" );
         return false;
     } else {
+        cnote << "Snapshot hash is: " << ( *it ).first << ". Verifying it...";
+
         std::vector< size_t > idx;
         std::vector< libff::alt_bn128_G1 > signatures;
         for ( size_t i = 0; i < this->n_; ++i ) {
@@ -138,7 +151,7 @@ bool SnapshotHashAgent::voteForHash() {
                 continue;
             }
 
-            if ( this->hashes_.at( i ) == ( *it ).first ) {
+            if ( verified.at( i ) && this->hashes_.at( i ) == ( *it ).first ) {
                 this->nodesToDownloadSnapshotFrom_.push_back( i );
                 idx.push_back( i + 1 );
                 signatures.push_back( this->signatures_.at( i ) );
diff --git a/libskale/SnapshotHashAgent.h b/libskale/SnapshotHashAgent.h
index 23a8b58..7cc16d4 100644
--- a/libskale/SnapshotHashAgent.h
+++ b/libskale/SnapshotHashAgent.h
@@ -95,6 +95,8 @@ private:
         const std::string& url, unsigned blockNumber );
     std::pair< dev::h256, libff::alt_bn128_G1 > votedHash_;
 
+    // which nodes sent a hash together with a valid signature of it
+    std::vector< bool > verifyData() const;
     size_t verifyAllData() const;
 };
 
-- 
2.43.0


From f0f121f9b8598009e8d970a01de00b905268d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 26/33] fix: a downloaded snapshot with damaged database blocks
 is not accepted

---
 libdevcore/LevelDB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdevcore/LevelDB.cpp b/libdevcore/LevelDB.cpp
index ba019a4..a04c752 100644
--- a/libdevcore/LevelDB.cpp
+++ b/libdevcore/LevelDB.cpp
@@ -108,6 +108,7 @@ leveldb::Options LevelDB::defaultDBOptions() {
 leveldb::ReadOptions LevelDB::defaultSnapshotReadOptions() {
     leveldb::ReadOptions options;
     options.fill_cache = false;
+    options.verify_checksums = true;
     return options;
 }
 
@@ -371,6 +372,9 @@ bool LevelDB::hashBasePartially( secp256k1_sha256_t* ctx, std::string& lastHashe
         ++counter;
     }
 
+    auto const status = it->status();
+    checkStatus( status );
+
     if ( it->Valid() ) {
         lastHashedKey = it->key().ToString();
         return true;
-- 
2.43.0


From e85a35044b5035ca08313897b9cda688dde594b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:16 +0000
Subject: [PATCH 27/33] fix: planned exit time could be lost or missed

The file with the exit time was overwritten in place and write errors were not
noticed: with a full disk setSchainExitTime reported success and the node never
exited; a kill during a change, or a block imported during it, lost the time
set earlier.
---
 libethereum/InstanceMonitor.cpp | 13 ++++++++++++-
 libethereum/InstanceMonitor.h   |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/libethereum/InstanceMonitor.cpp b/libethereum/InstanceMonitor.cpp
index ed180f6..13ae308 100644
--- a/libethereum/InstanceMonitor.cpp
+++ b/libethereum/InstanceMonitor.cpp
@@ -44,8 +44,19 @@ void InstanceMonitor::initRotationParams( uint64_t _finishTimestamp ) {
         nlohmann::json rotationJson = nlohmann::json::object();
         rotationJson["timestamp"] = _finishTimestamp;
 
-        std::ofstream rotationInfoFile( m_rotationInfoFilePath.string() );
+        // the file is read when every block is imported, and a time set earlier should not be lost
+        // if the new one cannot be saved
+        std::lock_guard< std::mutex > lock( m_rotationInfoFileMutex );
+        fs::path tmpPath = m_rotationInfoFilePath;
+        tmpPath += ".tmp";
+
+        std::ofstream rotationInfoFile;
+        rotationInfoFile.exceptions( std::ofstream::failbit | std::ofstream::badbit );
+        rotationInfoFile.open( tmpPath.string() );
         rotationInfoFile << rotationJson;
+        rotationInfoFile.close();
+
+        fs::rename( tmpPath, m_rotationInfoFilePath );
 
         LOG( m_infoLogger ) << "Set rotation time to " << _finishTimestamp;
     } catch ( ... ) {
diff --git a/libethereum/InstanceMonitor.h b/libethereum/InstanceMonitor.h
index 688fddc..f599b3c 100644
--- a/libethereum/InstanceMonitor.h
+++ b/libethereum/InstanceMonitor.h
@@ -27,6 +27,7 @@
 #include <libdevcore/FileSystem.h>
 #include <libdevcore/Log.h>
 #include <boost/filesystem.hpp>
+#include <mutex>
 
 namespace fs = boost::filesystem;
 
@@ -50,6 +51,7 @@ protected:
 
     const fs::path m_rotationInfoFilePath;
     std::shared_ptr< StatusAndControl > m_statusAndControl;
+    std::mutex m_rotationInfoFileMutex;
 
     static const std::string rotation_info_file_name;
 
-- 
2.43.0


From 6619a925f85ec43c08660f89e8b69d01fd4c15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:16 +0000
Subject: [PATCH 28/33] fix: node did not exit at the planned time if its exit
 time file could not be deleted

The exception skipped the exit, and the node went on importing blocks.
---
 libethereum/InstanceMonitor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libethereum/InstanceMonitor.cpp b/libethereum/InstanceMonitor.cpp
index 13ae308..b3fc6c0 100644
--- a/libethereum/InstanceMonitor.cpp
+++ b/libethereum/InstanceMonitor.cpp
@@ -35,8 +35,14 @@ namespace fs = boost::filesystem;
 const std::string InstanceMonitor::rotation_info_file_name = "rotation.json";
 
 void InstanceMonitor::prepareRotation() {
-    reportExitTimeReached( true );
-    fs::remove( m_rotationInfoFilePath );
+    // the instance should exit even if something is wrong with the files; if the exit cannot be reported
+    // then the exit time is kept, so that the instance reports and exits again if it is restarted
+    try {
+        reportExitTimeReached( true );
+        fs::remove( m_rotationInfoFilePath );
+    } catch ( const std::exception& ex ) {
+        LOG( m_errorLogger ) << "Preparing rotation failed: " << ex.what();
+    }
 }
 
 void InstanceMonitor::initRotationParams( uint64_t _finishTimestamp ) {
-- 
2.43.0


From 3d4c8d7b093791dadcf0fee648d4b0e1e24a818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:38 +0000
Subject: [PATCH 29/33] fix: an interrupted rotation of the block database is
 not done twice for a block larger than a piece

---
 libethereum/BlockChain.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libethereum/BlockChain.cpp b/libethereum/BlockChain.cpp
index e233968..9586017 100644
--- a/libethereum/BlockChain.cpp
+++ b/libethereum/BlockChain.cpp
@@ -954,7 +954,9 @@ ImportRoute BlockChain::insertBlockAndExtras( VerifiedBlockRef const& _block,
                         << ". Piece DB usage is " << pieceUsageBytes << " bytes";
 
     // re-evaluate batches and reset total usage counter if rotated!
-    if ( rotateDBIfNeeded( pieceUsageBytes ) ) {
+    // a piece without blocks is not rotated out: if the node was killed right after the rotation for
+    // this block, it would be done twice (and the hash of blocks would differ from other nodes)
+    if ( pieceUsageBytes > writeSize && rotateDBIfNeeded( pieceUsageBytes ) ) {
         LOG( m_loggerInfo ) << "Rotated out some blocks";
         m_db->revert();
         writeSize = prepareDbDataAndReturnSize(
-- 
2.43.0


From 4babb94c8327356459faf9c7277c537a5fb6948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:13 +0000
Subject: [PATCH 30/33] fix: uploadChunk with data shorter than its declared
 length crashes skaled

---
 libethereum/Precompiled.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libethereum/Precompiled.cpp b/libethereum/Precompiled.cpp
index bfcff6b..b5e0c68 100644
--- a/libethereum/Precompiled.cpp
+++ b/libethereum/Precompiled.cpp
@@ -351,8 +351,13 @@ ETH_REGISTER_FS_PRECOMPILED( uploadChunk )( bytesConstRef _in, skale::OverlayFS*
             throw std::runtime_error(
                 "uploadChunk() failed because chunk gets out of the file bounds" );
         }
-        const _byte_* data =
-            _in.cropped( 128 + filenameBlocksCount * UINT256_SIZE, dataLength ).data();
+        bytesConstRef const chunk =
+            _in.cropped( 128 + filenameBlocksCount * UINT256_SIZE, dataLength );
+        if ( chunk.size() != dataLength ) {
+            throw std::runtime_error(
+                "uploadChunk() failed because the data is shorter than its declared length" );
+        }
+        const _byte_* data = chunk.data();
 
         _overlayFS->writeChunk( filePath.string(), position, dataLength, data );
 
-- 
2.43.0


From 755fddcf0923ee2ac6865cc84ba45ff206fa9878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:13 +0000
Subject: [PATCH 31/33] fix: historic state of an account that was looked up
 before its creation is lost

---
 libhistoric/HistoricState.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhistoric/HistoricState.cpp b/libhistoric/HistoricState.cpp
index 9f3938a..9a11d00 100644
--- a/libhistoric/HistoricState.cpp
+++ b/libhistoric/HistoricState.cpp
@@ -202,6 +202,8 @@ void HistoricState::commitExternalChanges( AccountMap const& _accountMap ) {
     m_changeLog.clear();
     m_cache.clear();
     m_unchangedCacheEntries.clear();
+    // accounts that were missing before may exist now
+    m_nonExistingAccountsCache.clear();
     auto historicStateFinish = dev::db::LevelDB::getCurrentTimeMs();
     m_totalTimeSpentInStateCommitsPerBlock += historicStateFinish - historicStateStart;
 }
-- 
2.43.0


From 7b7cc7163d70c5b1c0823626009fb458c4e09d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:13 +0000
Subject: [PATCH 32/33] fix: historic state loses transactions of a block
 interrupted by restart

---
 libhistoric/HistoricState.cpp | 14 ++++++++++++++
 libhistoric/HistoricState.h   |  3 +++
 libskale/State.cpp            | 11 ++++++-----
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/libhistoric/HistoricState.cpp b/libhistoric/HistoricState.cpp
index 9a11d00..e28b127 100644
--- a/libhistoric/HistoricState.cpp
+++ b/libhistoric/HistoricState.cpp
@@ -204,6 +204,9 @@ void HistoricState::commitExternalChanges( AccountMap const& _accountMap ) {
     m_unchangedCacheEntries.clear();
     // accounts that were missing before may exist now
     m_nonExistingAccountsCache.clear();
+    // record the root so that a restart in the middle of a block does not lose these changes
+    m_blockToStateRootDB.insert( sha3( "current" ), m_state.root().ref() );
+    m_blockToStateRootDB.commit();
     auto historicStateFinish = dev::db::LevelDB::getCurrentTimeMs();
     m_totalTimeSpentInStateCommitsPerBlock += historicStateFinish - historicStateStart;
 }
@@ -310,12 +313,23 @@ void HistoricState::saveRootForBlock( uint64_t _blockNumber ) {
     m_blockToStateRootDB.commit();
 }
 
+bool HistoricState::hasRootInDB() const {
+    return m_blockToStateRootDB.exists( sha3( "latest" ) );
+}
+
 void HistoricState::setRootFromDB() {
     auto key = sha3( "latest" );
     if ( !m_blockToStateRootDB.exists( key ) ) {
         // new database
         return;
     }
+    // skaled could be stopped between transactions of a block
+    auto currentKey = sha3( "current" );
+    if ( m_blockToStateRootDB.exists( currentKey ) ) {
+        auto value = m_blockToStateRootDB.lookup( currentKey );
+        setRoot( GlobalRoot( h256( value, h256::ConstructFromStringType::FromBinary ) ) );
+        return;
+    }
     auto latest = m_blockToStateRootDB.lookup( key );
     setRootByBlockNumber( boost::lexical_cast< uint64_t >( latest ) );
 }
diff --git a/libhistoric/HistoricState.h b/libhistoric/HistoricState.h
index 8c3a8cb..27cb418 100644
--- a/libhistoric/HistoricState.h
+++ b/libhistoric/HistoricState.h
@@ -296,6 +296,9 @@ public:
 
     void setRootFromDB();
 
+    // true if root of at least one block has been saved
+    bool hasRootInDB() const;
+
     uint64_t getAndResetBlockCommitTime();
 
 private:
diff --git a/libskale/State.cpp b/libskale/State.cpp
index 00675d0..7ff33a9 100644
--- a/libskale/State.cpp
+++ b/libskale/State.cpp
@@ -551,6 +551,12 @@ void State::commit( dev::eth::CommitBehaviour _commitBehaviour ) {
                 }
             }
         }
+
+#ifdef HISTORIC_STATE
+        // goes first: if we are killed in between, then the transaction is executed again, and
+        // writing the same accounts to the historic state once more changes nothing
+        m_historicState.commitExternalChanges( m_cache );
+#endif
         rollbackGuard.release();
 
         m_db_ptr->updateStorageUsage( totalStorageUsed_ );
@@ -558,11 +564,6 @@ void State::commit( dev::eth::CommitBehaviour _commitBehaviour ) {
         m_currentVersion = *m_storedVersion;
     }
 
-
-#ifdef HISTORIC_STATE
-    m_historicState.commitExternalChanges( m_cache );
-#endif
-
     m_changeLog.clear();
     m_cache.clear();
     m_unchangedCacheEntries.clear();
-- 
2.43.0


From f343e30c677e4d1671bab6da718894a9b2a7a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:13 +0000
Subject: [PATCH 33/33] fix: historic state is left incomplete if skaled is
 killed while populating it

---
 libethereum/Client.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/libethereum/Client.cpp b/libethereum/Client.cpp
index 8f7604c..bfc8c72 100644
--- a/libethereum/Client.cpp
+++ b/libethereum/Client.cpp
@@ -239,12 +239,6 @@ void Client::populateNewChainStateFromGenesis() {
 
 
 void Client::initStateFromDiskOrGenesis() {
-#ifdef HISTORIC_STATE
-    // Check if If the historic state databases do not yet exist
-    bool historicStateExists = fs::exists(
-        fs::path( std::string( m_dbPath.string() ).append( "/" ).append( HISTORIC_STATE_DIR ) ) );
-#endif
-
     m_state = State( chainParams().accountStartNonce, m_dbPath, bc().genesisHash(),
         BaseState::PreExisting, chainParams().accountInitialFunds,
         chainParams().sChain.contractStorageLimit );
@@ -256,10 +250,13 @@ void Client::initStateFromDiskOrGenesis() {
 #ifdef HISTORIC_STATE
         // if SKALE state exists but historic state does not, we need to populate the historic state
         // from SKALE state
-        if ( !historicStateExists ) {
+        // (also if we were killed before historic state was completely populated)
+        if ( !m_state.mutableHistoricState().hasRootInDB() ) {
             m_state.mutableHistoricState().db().setCommitOnEveryInsert( true );
             m_state.populateHistoricStateFromSkaleState();
             m_state.mutableHistoricState().db().setCommitOnEveryInsert( false );
+            if ( bc().number() == 0 && m_state.safeLastExecutedTransactionHash() == h256() )
+                m_state.mutableHistoricState().saveRootForBlock( 0 );
         }
 #endif
     }
-- 
2.43.0

