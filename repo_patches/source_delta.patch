From e46dbe0bb78061d1a1e4a2c42ba9d379772ee6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 01/50] fix: OPTIONAL with an empty right side and no shared
 variables kept no rows

---
 Query/TempResult.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 28be3c5..1387dd8 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -538,9 +538,13 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 	{
 		this->doJoin(x, ra);
 
-		binding.resize((int)this->result.size());
-		for (int i = 0; i < (int)this->result.size(); i++)
-			binding[i] = true;	// val in resize is only for new insertions
+		// Joining with an empty result binds nothing
+		if (!x.result.empty())
+		{
+			binding.resize((int)this->result.size());
+			for (int i = 0; i < (int)this->result.size(); i++)
+				binding[i] = true;	// val in resize is only for new insertions
+		}
 	}
 	else if (!x.result.empty())
 	{
-- 
2.43.0


From 31c504e68ce9c999e96c92673299f0ec84eae4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 02/50] fix: MINUS lost or duplicated rows when its right side
 was empty

---
 Query/TempResult.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 1387dd8..99dec44 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -622,9 +622,6 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 
 void TempResult::doMinus(TempResult &x, TempResult &r)
 {
-	if (x.result.empty())
-		r = *this;
-	
 	int this_id_cols = this->id_varset.getVarsetSize();
 
 	int r_id_cols = r.id_varset.getVarsetSize();
@@ -637,7 +634,7 @@ void TempResult::doMinus(TempResult &x, TempResult &r)
 
 	Varset common = this->getAllVarset() * x.getAllVarset();
 
-	if (common.empty())
+	if (common.empty() || x.result.empty())
 	{
 		for (int i = 0; i < (int)this->result.size(); i++)
 		{
@@ -663,7 +660,7 @@ void TempResult::doMinus(TempResult &x, TempResult &r)
 			}
 		}
 	}
-	else if (!x.result.empty())
+	else
 	{
 		vector<int> common2this = common.mapTo(this->getAllVarset());
 		vector<int> common2x = common.mapTo(x.getAllVarset());
-- 
2.43.0


From 468ffb87cb4d1cd51a1e625be1dca7f2e659736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 03/50] fix: IN and NOT IN compared with the first list element
 only

---
 Query/TempResult.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 99dec44..8786c10 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1181,7 +1181,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue equal = (x == y);
 			if (i == 1)
 				ret_femv = equal;
@@ -1203,7 +1203,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue inequal = (x != y);
 			if (i == 1)
 				ret_femv = inequal;
-- 
2.43.0


From 98b20c82601367ae6c0442ab40df9183cd01a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 04/50] fix: a projection dropped the rows that bind none of
 the projected variables

---
 Query/TempResult.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 8786c10..42c825a 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1558,7 +1558,6 @@ void TempResultSet::doProjection1(Varset &proj, TempResultSet &r, StringIndex *s
 	int r_str_cols = r_str_varset.getVarsetSize();
 
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(r_id_varset) || this->results[i].str_varset.hasCommonVar(r_str_varset))
 		{
 			vector<int> r2this_id_pos = r_id_varset.mapTo(this->results[i].id_varset);
 			vector<int> r2this_str_pos = r_str_varset.mapTo(this->results[i].str_varset);
-- 
2.43.0


From 0a9aeb877f876b77153603f71bb61b13d5f6a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 05/50] fix: keep the variables that join two blocks of a basic
 graph pattern

---
 Query/GeneralEvaluation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 8405126..c91ff58 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -824,6 +824,12 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 									basic_query.push_back(triple_pattern.sub_group_pattern[k].pattern);
 								}
 
+							//// Vars that join this BGP to the triples outside it must be kept as well ////
+							for (int k = 0; k < (int)triple_pattern.sub_group_pattern.size(); k++)
+								if (triple_pattern.sub_group_pattern[k].type == GroupPattern::SubGroupPattern::Pattern_type \
+									&& triple_pattern.getRootPatternBlockID(k) != l)
+									local_useful += triple_pattern.sub_group_pattern[k].pattern.varset * occur;
+
 							//// Reduce useful: return result vars ////
 							if (!this->query_tree.checkProjectionAsterisk() && local_useful.hasCommonVar(occur))
 								local_useful = local_useful * occur;	// Only the common vars remain
-- 
2.43.0


From 6d4a4ace255efe73a38bbcb229b666df6e9cb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 06/50] fix: a triple pattern without variables is an existence
 check for its group

---
 Query/GeneralEvaluation.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index c91ff58..50580c3 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -519,10 +519,19 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					// auto limit_num = query_tree.getLimit();
 					auto order_var_vec = query_tree.getOrderVarVector();
 
+					bool const_triples_exist = true;
 					for (int j = st; j <= i; j++)
 						if (group_pattern.sub_group_pattern[j].type == GroupPattern::SubGroupPattern::Pattern_type \
 							&& !group_pattern.sub_group_pattern[j].pattern.kleene)
 						{
+							if (group_pattern.sub_group_pattern[j].pattern.varset.empty())
+							{
+								// A triple without vars binds nothing, it only has to exist (all results are empty otherwise)
+								GroupPattern::Pattern &const_pattern = group_pattern.sub_group_pattern[j].pattern;
+								if (!BGPQuery::CheckConstBGPExist({Triple(const_pattern.subject.value, \
+									const_pattern.predicate.value, const_pattern.object.value)}, kvstore))
+									const_triples_exist = false;
+							}
 							if (!group_pattern.sub_group_pattern[j].pattern.varset.empty())
 							{
 								if (group_pattern.getRootPatternBlockID(j) == j)		//root node, coming from mergePatternBlockID
@@ -587,7 +596,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					for (size_t k = 0; k < bgp_query_vec.size(); k++)
 					{
 						curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
-						encode_constant_exist[k] = curr_exist;
+						encode_constant_exist[k] = curr_exist && const_triples_exist;
 					}
 					#endif
 					long tv_encode = Util::get_cur_time();
@@ -803,12 +812,24 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 										triple_pattern.mergePatternBlockID(l, k);
 						}
 
+					bool const_triples_exist = true;
+
 					// Retrieve current BGP's result if query cache hit, or else save into sparql_query //
 					for (int l = 0; l < (int)triple_pattern.sub_group_pattern.size(); l++)
 						if (triple_pattern.sub_group_pattern[l].type == GroupPattern::SubGroupPattern::Pattern_type \
 							&& !triple_pattern.sub_group_pattern[l].pattern.kleene \
 							&& triple_pattern.getRootPatternBlockID(l) == l)
 						{
+							/// A triple without vars binds nothing, it only has to exist (all results are empty otherwise) ///
+							if (triple_pattern.sub_group_pattern[l].pattern.varset.empty())
+							{
+								GroupPattern::Pattern &const_pattern = triple_pattern.sub_group_pattern[l].pattern;
+								if (!BGPQuery::CheckConstBGPExist({Triple(const_pattern.subject.value, \
+									const_pattern.predicate.value, const_pattern.object.value)}, kvstore))
+									const_triples_exist = false;
+								continue;
+							}
+
 							/// Process only the root triples of each BGP ///
 							//// Construct occur: all vars that occur in this BGP ////
 							//// Construct basic_query: vector of triples in this block ////
@@ -885,7 +906,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					for (size_t k = 0; k < bgp_query_vec.size(); k++)
 					{
 						bool curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
-						encode_constant_exist[k] = curr_exist;
+						encode_constant_exist[k] = curr_exist && const_triples_exist;
 					}
 					#endif
 					long tv_encode = Util::get_cur_time();
-- 
2.43.0


From 1f51cfec32b466bcc4cb45d59b4744cbf648efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 07/50] fix: predicate-variable scans lost duplicates of
 non-DISTINCT queries

---
 Database/PlanGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Database/PlanGenerator.cpp b/Database/PlanGenerator.cpp
index 95888fe..54d79ac 100644
--- a/Database/PlanGenerator.cpp
+++ b/Database/PlanGenerator.cpp
@@ -59,7 +59,7 @@ JoinMethod PlanGenerator::GetJoinStrategy(bool s_is_var, bool p_is_var, bool o_i
 			if(!bgpquery->get_vardescrip_by_id(bgpquery->pre_var_id[0])->selected_)
 				return JoinMethod::s2o;
 			else{
-				if(!bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
+				if(bgpquery->distinct_query && !bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
 					return JoinMethod::s2p;
 				else return JoinMethod::s2po;
 			}
@@ -68,7 +68,7 @@ JoinMethod PlanGenerator::GetJoinStrategy(bool s_is_var, bool p_is_var, bool o_i
 			if(!bgpquery->get_vardescrip_by_id(bgpquery->pre_var_id[0])->selected_)
 				return JoinMethod::o2s;
 			else{
-				if(!bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
+				if(bgpquery->distinct_query && !bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
 					return JoinMethod::o2p;
 				else return JoinMethod::o2ps;
 			}
-- 
2.43.0


From 812d267d5dc69ddc0be97560c502a118baa7737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 08/50] fix: DELETE/INSERT ... WHERE deletes its delete
 template

---
 Database/Database.cpp  | 10 ++++++++--
 Parser/QueryParser.cpp |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 92064fc..b1152e4 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1897,6 +1897,12 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			general_evaluation.getQueryTree().setProjectionAsterisk();
 			general_evaluation.doQuery();
 
+			// both templates are instantiated from the same solutions, before anything is changed
+			TripleWithObjType *insert_triple = NULL;
+			TYPE_TRIPLE_NUM insert_triple_num = 0;
+			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
+				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getInsertPatterns(), insert_triple, insert_triple_num);
+
 			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Delete_Where || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Delete_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
 			{
 				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getDeletePatterns(), update_triple, update_triple_num);
@@ -1908,13 +1914,13 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			}
 			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
 			{
-				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getInsertPatterns(), update_triple, update_triple_num);
 				// for(int i = 0; i < update_triple_num; i++)
 				//{
 				// update_triple[i] = trie->Compress(update_triple[i], Trie::QUERYMODE);
 				//}
-				success_num = insert(update_triple, update_triple_num, false, txn);
+				success_num += insert(insert_triple, insert_triple_num, false, txn);
 			}
+			delete[] insert_triple;
 		}
 
 		general_evaluation.releaseResult();
diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 22609ff..3c75a3f 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1476,9 +1476,12 @@ antlrcpp::Any QueryParser::visitModify(SPARQLParser::ModifyContext *ctx)
 
 	if (ctx->deleteClause() && ctx->insertClause())
 	{
-		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
+		// the update type tells visitTriplesSameSubject which template a triple belongs to
+		query_tree_ptr->setUpdateType(QueryTree::Delete_Clause);
 		visit(ctx->deleteClause());
+		query_tree_ptr->setUpdateType(QueryTree::Insert_Clause);
 		visit(ctx->insertClause());
+		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
 	}
 	else if (ctx->deleteClause())
 	{
-- 
2.43.0


From b0469ba57726c5133771708c2d059bd4c0708df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 09/50] fix: batch removal used uninitialised ids for triples
 with unknown terms

---
 Database/Database.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index b1152e4..37d5c03 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4061,7 +4061,9 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		write_update_log(_triples, _triple_num, 0, txn);
 	}
 
-	vector<ID_TUPLE> id_tuples(_triple_num);
+	// only the triples whose terms all exist
+	vector<ID_TUPLE> id_tuples;
+	id_tuples.reserve(_triple_num);
 	for (unsigned i = 0; i < _triple_num; ++i)
 	{
 		TripleWithObjType _triple = _triples[i];
@@ -4086,14 +4088,15 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 			continue;
 		}
 
-		id_tuples[i].subid = _sub_id;
-		id_tuples[i].preid = _pre_id;
-		id_tuples[i].objid = _obj_id;
+		id_tuples.push_back(ID_TUPLE(_sub_id, _pre_id, _obj_id));
 		sub_ids.insert(_sub_id);
 		pre_ids.insert(_pre_id);
 		obj_ids.insert(_obj_id);
 	}
 
+	if (id_tuples.empty())
+		return 0;
+
 	sort(id_tuples.begin(), id_tuples.end(), Util::spo_cmp_idtuple);
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
 	id_tuples.erase(new_end, id_tuples.end());
-- 
2.43.0


From dc4a8f70a49b466b2e80452c7de4dcb2a6b81e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 10/50] fix: never hand out ids from the start while some are
 still in use

---
 Database/Database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 37d5c03..0baddd3 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3658,7 +3658,7 @@ bool Database::remove(std::string _rdf_file, bool _is_restore, shared_ptr<Transa
 	cout << "removed triples num: " << success_num << endl;
 
 	// if(this->vstree->isEmpty())
-	if (this->triples_num == 0)
+	if (this->triples_num == 0 && this->entity_num == 0 && this->literal_num == 0 && this->pre_num == 0)
 	{
 		this->resetIDinfo();
 	}
@@ -3775,7 +3775,7 @@ Database::remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num,
 	// BETTER+TODO:this will require us to lock all when remove process not ends(in multiple threads cases)
 	// An considerable idea is to check if empty after every triple removed
 	// if(this->vstree->isEmpty())
-	if (this->triples_num == 0)
+	if (this->triples_num == 0 && this->entity_num == 0 && this->literal_num == 0 && this->pre_num == 0)
 	{
 		this->resetIDinfo();
 	}
@@ -3894,7 +3894,7 @@ Database::batch_remove(std::string _rdf_file, bool _is_restore, shared_ptr<Trans
 	cout << "remove rdf triples done." << endl;
 	cout << "removed triples num: " << success_num << endl;
 
-	if (this->triples_num == 0)
+	if (this->triples_num == 0 && this->entity_num == 0 && this->literal_num == 0 && this->pre_num == 0)
 	{
 		this->resetIDinfo();
 	}
-- 
2.43.0


From 5e8e492a6681c9d9cef701c1daa1ec236be9c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 11/50] fix: count an entity as a subject when it gains or
 loses its outgoing triples

---
 Database/Database.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 0baddd3..98fa2d3 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3342,6 +3342,9 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		else
 		{
 			this->triples_num++; // NOTE: triples_num set here
+			// an entity that was only an object so far becomes a subject
+			if (!_is_new_sub && this->kvstore->getEntityOutDegree(_sub_id) == 0)
+				this->sub_num++;
 		}
 	}
 
@@ -3913,8 +3916,6 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 	unsigned update_num_p = 0;
 	unsigned update_num_o = 0;
 	unsigned update_num_subject = 0;
-	set<TYPE_ENTITY_LITERAL_ID> sub_lists;
-	set<TYPE_ENTITY_LITERAL_ID> obj_lists;
 
 	if (!_is_restore)
 	{
@@ -3929,16 +3930,9 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		if (_sub_id == INVALID_ENTITY_LITERAL_ID)
 		{
 			_sub_id = this->allocEntityID();
-			update_num_subject = update_num_subject + 1;
 			(this->kvstore)->setIDByEntity(_triple.subject, _sub_id);
 			(this->kvstore)->setEntityByID(_sub_id, _triple.subject);
 			vertices.push_back(_sub_id);
-			sub_lists.insert(_sub_id);
-		}
-		else if (obj_lists.find(_sub_id) != obj_lists.end() && sub_lists.find(_sub_id) == sub_lists.end())
-		{
-			update_num_subject = update_num_subject + 1;
-			sub_lists.insert(_sub_id);
 		}
 
 		TYPE_PREDICATE_ID _pre_id = (this->kvstore)->getIDByPredicate(_triple.predicate);
@@ -3961,7 +3955,6 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 				(this->kvstore)->setIDByEntity(_triple.object, _obj_id);
 				(this->kvstore)->setEntityByID(_obj_id, _triple.object);
 				vertices.push_back(_obj_id);
-				obj_lists.insert(_obj_id);
 			}
 		}
 		else
@@ -4006,6 +3999,11 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 			return -1;
 		}
 	}
+	// the entities that are no subjects yet and become one here
+	for (TYPE_TRIPLE_NUM i = 0; i < valid_num; ++i)
+		if ((i == 0 || id_tuples[i].subid != id_tuples[i - 1].subid) && this->kvstore->getEntityOutDegree(id_tuples[i].subid) == 0)
+			update_num_subject++;
+
 	// po inserts
 	// sub_batch_update(id_tuples, valid_num, update_num_s, UPDATE_TYPE::SUBJECT_INSERT, txn);
 	thread sub_t = thread(&Database::sub_batch_update, this, id_tuples, valid_num, ref(update_num_s), UPDATE_TYPE::SUBJECT_INSERT, txn);
@@ -4102,6 +4100,12 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 	id_tuples.erase(new_end, id_tuples.end());
 	valid_num = id_tuples.size();
 
+	// only the entities with an outgoing triple are subjects
+	set<unsigned> old_subs;
+	for (auto _sub_id : sub_ids)
+		if (this->kvstore->getEntityOutDegree(_sub_id) > 0)
+			old_subs.insert(_sub_id);
+
 	// po inserts
 	// sub_batch_update(id_tuples, valid_num, update_num_s, UPDATE_TYPE::SUBJECT_INSERT, txn);
 	thread sub_t = thread(&Database::sub_batch_update, this, id_tuples, valid_num, ref(update_num_s), UPDATE_TYPE::SUBJECT_REMOVE, txn);
@@ -4130,6 +4134,9 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 	cout << "update_num_triple:" << update_num_triple << ",update_num_s:" << update_num_s << ",update_num_p:" << update_num_p << ",update_num_o:" << update_num_o << endl;
 	if (txn == nullptr)
 	{
+		for (auto _sub_id : old_subs)
+			if (this->kvstore->getEntityOutDegree(_sub_id) == 0)
+				update_num_subject++;
 		for (auto _sub_id : sub_ids)
 		{
 			int sub_degree = (this->kvstore)->getEntityDegree(_sub_id);
@@ -4141,8 +4148,6 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 				this->kvstore->subEntityByID(_sub_id);
 				this->kvstore->subIDByEntity(subject);
 				this->freeEntityID(_sub_id);
-				//this->sub_num--;
-				update_num_subject = update_num_subject + 1;
 				vertices.push_back(_sub_id);
 			}
 		}
-- 
2.43.0


From db735c7fd2fc36bc52aa00db3fa1b64c92575ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 12/50] fix: removing the last self-loop of an entity freed its
 id twice

---
 Database/Database.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 98fa2d3..bffe02b 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3451,7 +3451,8 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		if (is_obj_entity)
 		{
 			obj_degree = this->kvstore->getEntityDegree(_obj_id);
-			if (obj_degree == 0)
+			// the subject of a self-loop is already removed
+			if (obj_degree == 0 && _obj_id != _sub_id)
 			{
 				this->kvstore->subEntityByID(_obj_id);
 				this->kvstore->subIDByEntity(_triple.object);
-- 
2.43.0


From 0adf27fd82d396a6cc5f9a4c28208d1b76db8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 13/50] fix: a candidate filter dropped duplicates of
 non-DISTINCT queries

---
 Database/Executor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Database/Executor.cpp b/Database/Executor.cpp
index 1e9424f..2f1aec6 100644
--- a/Database/Executor.cpp
+++ b/Database/Executor.cpp
@@ -1175,7 +1175,13 @@ std::shared_ptr<IDList> gstore::Executor::ExtendRecordOneNode(shared_ptr<AffectO
   if(id_caches->find(new_id)!=id_caches->end())
   {
     auto caches_ptr = (*(id_caches->find(new_id))).second;
-    record_candidate_list->intersectList(caches_ptr->getList()->data(),caches_ptr->size());
+    // the candidates are only a filter: they must not drop the duplicates an edge to an unprojected variable left
+    auto candidates = caches_ptr->getList();
+    auto filtered_list = make_shared<IDList>();
+    for(auto id : *record_candidate_list->getList())
+      if(binary_search(candidates->begin(), candidates->end(), id))
+        filtered_list->addID(id);
+    record_candidate_list = filtered_list;
   }
 
   return record_candidate_list;
-- 
2.43.0


From dd8edbeb582593261ba9af7a6efdad90bad3d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 14/50] fix: LANGMATCHES ignores case and matches language
 ranges

---
 Query/TempResult.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 42c825a..7e421e2 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1156,7 +1156,14 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		if (!y.isSimpleLiteral())
 			return ret_femv;
 
-		ret_femv.bool_value = ((x.str_value == y.str_value) || (x.str_value.length() > 0 && y.str_value == "\"*\""));
+		// basic filtering (RFC 4647): case-insensitive, a range matches the tags it is a prefix of; str_value has quotes
+		string tag = x.str_value, range = y.str_value;
+		transform(tag.begin(), tag.end(), tag.begin(), ::tolower);
+		transform(range.begin(), range.end(), range.begin(), ::tolower);
+		if (range == "\"*\"")
+			ret_femv.bool_value = (tag != "\"\"");
+		else
+			ret_femv.bool_value = (tag == range || tag.find(range.substr(0, range.length() - 1) + "-") == 0);
 
 		return ret_femv;
 	}
-- 
2.43.0


From 0b257ae6b3c1568e17b22c18b2db79e02b9c1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 15/50] fix: LIMIT cut rows before OFFSET, DISTINCT,
 aggregation or a join

---
 Query/GeneralEvaluation.cpp | 29 ++++++++++++++++-------------
 Query/QueryTree.cpp         | 13 +++++++++++++
 Query/QueryTree.h           |  1 +
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 50580c3..74d7de0 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -478,10 +478,6 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				QueryInfo query_info;
 				query_info.limit_ = false;
 				query_info.limit_num_ = 0;
-				if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
-					query_info.limit_ = true;
-					query_info.limit_num_ = this->query_tree.getLimit();
-				}
 				query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
 				query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
 				for(auto order_item:this->query_tree.getOrderVarVector())
@@ -633,6 +629,13 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						// bgp_query_vec[j]->print(kvstore);
 						if (!encode_constant_exist[j])
 							continue;	// If any constant in this BGP does not exist, do not need to DoQuery
+						// LIMIT may only stop the evaluation early if this BGP alone yields the rows
+						if (this->query_tree.getSingleBGP() && bgp_query_vec.size() == 1 && result->results.empty()
+							&& i + 1 == (int)group_pattern.sub_group_pattern.size() && this->query_tree.getRowLimit() > 0)
+						{
+							query_info.limit_ = true;
+							query_info.limit_num_ = this->query_tree.getRowLimit();
+						}
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[j],query_info));
 					}
 					#endif
@@ -930,10 +933,6 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 
 					query_info.limit_ = false;
 					query_info.limit_num_ = -1;
-					if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
-						query_info.limit_ = true;
-						query_info.limit_num_ = this->query_tree.getLimit();
-					}
 
 					query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
 
@@ -953,6 +952,11 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						// bgp_query_vec[l]->print(kvstore);
 						if (!encode_constant_exist[l])
 							continue;
+						if (this->query_tree.getSingleBGP() && bgp_query_vec.size() == 1 && this->query_tree.getRowLimit() > 0)
+						{
+							query_info.limit_ = true;
+							query_info.limit_num_ = this->query_tree.getRowLimit();
+						}
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[l],query_info));
 					}
 					#endif
@@ -1082,7 +1086,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getRowLimit());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
@@ -1135,7 +1139,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getRowLimit());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
@@ -1210,7 +1214,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		{
             // If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 			if (dep == 0 && query_tree.getOrderByVarset().empty() && i == group_pattern.sub_group_pattern.size() - 1)
-				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getRowLimit());
 			else
 				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset);
 			result->initial = false;
@@ -3517,8 +3521,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 		}
 #endif
 
-		if (!(query_tree.getSingleBGP() && query_tree.getLimit() != -1 && ranked))
-			ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
+		ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
 		if (!ret_result.checkUseStream())
 		{
 			ret_result.answer = new string*[ret_result.ansNum];
diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 59b4ec7..8a6e863 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -757,6 +757,19 @@ int QueryTree::getLimit()
 	return this->limit;
 }
 
+/**
+	Get the number of rows that suffice before the solution modifiers are applied.
+
+	@return LIMIT plus OFFSET, or -1 if LIMIT does not bound the rows the result is made of.
+*/
+int QueryTree::getRowLimit()
+{
+	if (this->limit == -1 || this->projection_modifier == Modifier_Distinct \
+		|| !this->group_by.vars.empty() || this->checkAtLeastOneAggregateFunction())
+		return -1;
+	return (int)min((long long)this->limit + max(this->offset, 0), (long long)INT_MAX);
+}
+
 /**
 	Get the outermost group graph pattern of this query.
 	
diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index 13cc757..da2fb0f 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -186,6 +186,7 @@ public:
 	int getOffset();
 	void setLimit(int _limit);
 	int getLimit();
+	int getRowLimit();
 
 	GroupPattern& getGroupPattern();
 	const GroupPattern &getGroupPattern() const {return this->group_pattern;}
-- 
2.43.0


From c866b17140b67d0229e9bfd8010b46263514a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 16/50] fix: ORDER BY over unbound, mixed or equal values was
 no ordering

---
 Util/Stream.cpp | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/Util/Stream.cpp b/Util/Stream.cpp
index b31828b..b35ea16 100644
--- a/Util/Stream.cpp
+++ b/Util/Stream.cpp
@@ -26,8 +26,24 @@ bool ResultCmp::operator() (Bstr* const& a, Bstr* const& b)
             //return (a[i] < b[i]);
     //}
     unsigned size = this->keys.size();
-    EvalMultitypeValue a_emv, b_emv, res;
-    int retVal = 0;
+    EvalMultitypeValue a_emv, b_emv;
+    // unbound < blank node < IRI < literal, literals of comparable types side by side
+    auto rank = [](const EvalMultitypeValue &emv) {
+        if (emv.term_value.empty())
+            return 0;
+        if (emv.term_value[0] == '_')
+            return 1;
+        if (emv.term_value[0] == '<')
+            return 2;
+        switch (emv.datatype) {
+            case EvalMultitypeValue::xsd_integer: case EvalMultitypeValue::xsd_long: case EvalMultitypeValue::xsd_decimal:
+            case EvalMultitypeValue::xsd_float: case EvalMultitypeValue::xsd_double: return 3;
+            case EvalMultitypeValue::literal: case EvalMultitypeValue::xsd_string: return 4;
+            case EvalMultitypeValue::xsd_boolean: return 5;
+            case EvalMultitypeValue::xsd_datetime: return 6;
+            default: return 7;
+        }
+    };
     for(unsigned i = 0; i < size; ++i) {
         int t = this->keys[i];
         if (a[t] == b[t])
@@ -38,14 +54,20 @@ bool ResultCmp::operator() (Bstr* const& a, Bstr* const& b)
         b_emv.term_value.assign(b[t].getStr(), b[t].getLen());
         b_emv.deduceTypeValue();
 
-        if(this->desc[i])
-            res = a_emv > b_emv;
-        else
-            res = a_emv < b_emv;
-        retVal = res.bool_value.getValue();
-        return retVal;  // 1 or 2: true or error value, return true; 0: false, return false
+        int a_rank = rank(a_emv), b_rank = rank(b_emv);
+        if (a_rank != b_rank)
+            return this->desc[i] ? a_rank > b_rank : a_rank < b_rank;
+
+        int less = (a_emv < b_emv).bool_value.getValue(), greater = (a_emv > b_emv).bool_value.getValue();
+        if (less == 1)
+            return !this->desc[i];
+        if (greater == 1)
+            return this->desc[i];
+        if (less == 2 && a_emv.term_value != b_emv.term_value)
+            return this->desc[i] ? a_emv.term_value > b_emv.term_value : a_emv.term_value < b_emv.term_value;
+        // equal values: the next key decides
     }
-    return true;
+    return false;
 }
 
 void
-- 
2.43.0


From 1056628b763460d9ac1feb7c0e33443a87df894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 17/50] fix: xsd:date values read past their three fields

---
 Util/EvalMultitypeValue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Util/EvalMultitypeValue.h b/Util/EvalMultitypeValue.h
index 2fa34a4..b940b50 100644
--- a/Util/EvalMultitypeValue.h
+++ b/Util/EvalMultitypeValue.h
@@ -53,7 +53,9 @@ class EvalMultitypeValue
 					this->date.push_back(_second);
 				}
 				DateTime(const std::vector<float> &v) {
-					this->date.assign(v.begin(), v.begin() + 6);
+					// a date has no time
+					this->date.assign(v.begin(), v.size() < 6 ? v.end() : v.begin() + 6);
+					this->date.resize(6, 0);
 				}
 
 				EffectiveBooleanValue operator == (const DateTime &x);
-- 
2.43.0


From 4e9b80da803a6f7783400be1da1fa867096ab2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 18/50] fix: aggregates without GROUP BY make one row of all
 solutions, or of none

---
 Query/GeneralEvaluation.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 74d7de0..064025b 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2190,7 +2190,16 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				}
 			}
 			// Exclusive with the if branch above
-			for (int begin = 0; begin < result0_size;)
+			// Without GROUP BY, aggregates make one row of all the solutions, even if there are none
+			bool single_group = group2temp.empty();
+			for (int i = 0; single_group && i < (int)proj.size(); i++)
+				if (proj[i].aggregate_type != ProjectionVar::Count_type && proj[i].aggregate_type != ProjectionVar::Sum_type
+					&& proj[i].aggregate_type != ProjectionVar::Avg_type && proj[i].aggregate_type != ProjectionVar::Min_type
+					&& proj[i].aggregate_type != ProjectionVar::Max_type && proj[i].aggregate_type != ProjectionVar::Groupconcat_type
+					&& proj[i].aggregate_type != ProjectionVar::Sample_type)
+					single_group = false;
+			bool empty_group = single_group && result0_size == 0;
+			for (int begin = 0; begin < result0_size || empty_group; empty_group = false)
 			{
 				// At the end of an iteration, begin will be set to end + 1
 				// The value of end will depend on GROUP BY conditions
@@ -2198,7 +2207,9 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				if (group2temp.empty()) {
 					end = result0_size - 1;
 					int resultSz = result0_size;
-					if (proj.size() == 1 && proj[0].aggregate_type != ProjectionVar::None_type \
+					if (single_group)
+						resultSz = 1;
+					else if (proj.size() == 1 && proj[0].aggregate_type != ProjectionVar::None_type \
 					&& proj[0].aggregate_type != ProjectionVar::CompTree_type && proj[0].aggregate_type != ProjectionVar::Contains_type \
 					&& proj[0].aggregate_type != ProjectionVar::PFN_type)
 						resultSz = 1;
@@ -2256,6 +2267,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						string sample_result;
 						numeric_sum.datatype = EvalMultitypeValue::xsd_integer;
 						numeric_sum.int_value = 0;
+						numeric_sum.deduceTermValue();
 						numeric_min.datatype = EvalMultitypeValue::xsd_long;
 						numeric_min.long_value = LONG_LONG_MAX;
 						numeric_max.datatype = EvalMultitypeValue::xsd_long;
@@ -2333,7 +2345,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_min.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_min = tmp;
 										}
 									}
@@ -2348,7 +2360,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_max.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_max = tmp;
 										}
 									}
@@ -2384,7 +2396,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									if (!groupconcat.empty())
 										groupconcat += "\"";
 								}
-								if (proj[i].aggregate_type == ProjectionVar::Avg_type)
+								if (proj[i].aggregate_type == ProjectionVar::Avg_type && count > 0)
 								{
 									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 									tmp.deduceTypeValue();
@@ -2467,7 +2479,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_min.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_min = tmp;
 										}
 									}
@@ -2482,7 +2494,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_max.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_max = tmp;
 										}
 									}
@@ -2496,7 +2508,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								}
 								if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
 									groupconcat += "\"";
-								else if (proj[i].aggregate_type == ProjectionVar::Avg_type)
+								else if (proj[i].aggregate_type == ProjectionVar::Avg_type && count > 0)
 								{
 									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 									tmp.deduceTypeValue();
@@ -2507,7 +2519,11 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						}
 						else 	// Only COUNT is possible
 						{
-							if (proj[i].distinct)
+							if (proj[i].distinct && result0_size == 0)
+							{
+								count = 0;
+							}
+							else if (proj[i].distinct)
 							{
 								count = temp_result_distinct->results[0].findRightBounder(group2distinct, result0.result[begin], result0_id_cols, group2temp) -
 									temp_result_distinct->results[0].findLeftBounder(group2distinct, result0.result[begin], result0_id_cols, group2temp) + 1;
-- 
2.43.0


From a5533ce3a7dc6d3737ff21349dfa8ecb244324e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 19/50] fix: division by zero crashed and integer division
 truncated

---
 Util/EvalMultitypeValue.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 32c31c9..686922c 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -921,10 +921,15 @@ EvalMultitypeValue
 		return ret_femv;
 
 	this->getSameNumericType(x);
+	// dividing by zero is an error, except for floating point numbers
+	if ((datatype == xsd_integer && x.int_value == 0) || (datatype == xsd_long && x.long_value == 0) \
+			|| (datatype == xsd_decimal && x.flt_value == 0))
+		return ret_femv;
 	if (datatype == xsd_integer)
 	{
-		ret_femv.datatype = xsd_integer;
-		ret_femv.int_value = int_value / x.int_value;
+		// the quotient of integers is a decimal
+		ret_femv.datatype = xsd_decimal;
+		ret_femv.flt_value = (double)int_value / x.int_value;
 	}
 	else if (datatype == xsd_decimal)
 	{
@@ -938,8 +943,8 @@ EvalMultitypeValue
 	}
 	else if (datatype == xsd_long)
 	{
-		ret_femv.datatype = xsd_long;
-		ret_femv.long_value = long_value / x.long_value;
+		ret_femv.datatype = xsd_decimal;
+		ret_femv.flt_value = (double)long_value / x.long_value;
 	}
 	else if (datatype == xsd_double)
 	{
-- 
2.43.0


From df87e1a892d7b2cadb99bc9cbe718c4b2784c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 20/50] fix: projecting away a variable lost duplicates next to
 a predicate variable

---
 Query/GeneralEvaluation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 064025b..dbdc9fa 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -855,7 +855,13 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 									local_useful += triple_pattern.sub_group_pattern[k].pattern.varset * occur;
 
 							//// Reduce useful: return result vars ////
-							if (!this->query_tree.checkProjectionAsterisk() && local_useful.hasCommonVar(occur))
+							//// Dropping a var next to a predicate var would merge rows that DISTINCT was not asked to merge ////
+							bool predicate_var = false;
+							if (this->query_tree.getProjectionModifier() != QueryTree::ProjectionModifier::Modifier_Distinct)
+								for (size_t k = 0; k < basic_query.size(); k++)
+									if (!basic_query[k].predicate.value.empty() && basic_query[k].predicate.value[0] == '?')
+										predicate_var = true;
+							if (!this->query_tree.checkProjectionAsterisk() && !predicate_var && local_useful.hasCommonVar(occur))
 								local_useful = local_useful * occur;	// Only the common vars remain
 							else
 								local_useful = occur;
-- 
2.43.0


From e3344ef96dcccae40d96e0f3452bd467bdbc3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 21/50] fix: update templates with unbound variables or literal
 subjects made triples

---
 Query/GeneralEvaluation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index dbdc9fa..9fffd7d 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3737,6 +3737,7 @@ void GeneralEvaluation::prepareUpdateTriple(GroupPattern &update_pattern, Triple
 					{
 						if (subject_id != -1)
 						{
+							subject.clear();
 							if (subject_id < id_cols)
 								this->stringindex->randomAccess(this->temp_result->results[j].result[k].id[subject_id], &subject, string_index_buffer, string_index_buffer_size, true);
 							else
@@ -3745,6 +3746,7 @@ void GeneralEvaluation::prepareUpdateTriple(GroupPattern &update_pattern, Triple
 
 						if (predicate_id != -1)
 						{
+							predicate.clear();
 							if (predicate_id < id_cols)
 								this->stringindex->randomAccess(this->temp_result->results[j].result[k].id[predicate_id], &predicate, string_index_buffer, string_index_buffer_size, false);
 							else
@@ -3753,12 +3755,17 @@ void GeneralEvaluation::prepareUpdateTriple(GroupPattern &update_pattern, Triple
 
 						if (object_id != -1)
 						{
+							object.clear();
 							if (object_id < id_cols)
 								this->stringindex->randomAccess(this->temp_result->results[j].result[k].id[object_id], &object, string_index_buffer, string_index_buffer_size, true);
 							else
 								object = this->temp_result->results[j].result[k].str[object_id - id_cols];
 						}
 
+						// a template with an unbound variable, or with a literal as subject or predicate, makes no triple
+						if (subject.empty() || predicate.empty() || object.empty() || subject[0] == '"' || predicate[0] == '"')
+							continue;
+
 						if (object[0] == '<')
 							object_type = TripleWithObjType::Entity;
 						else
@@ -3769,6 +3776,7 @@ void GeneralEvaluation::prepareUpdateTriple(GroupPattern &update_pattern, Triple
 				}
 			}
 		}
+	update_triple_num = update_triple_count;
 	if (string_index_buffer != NULL) delete[] string_index_buffer;
 }
 
-- 
2.43.0


From 816fcf9fc5fb96c152bee09e9d585646885d9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 22/50] fix: \U escapes beyond the basic plane were truncated

---
 Parser/TurtleParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 54096d9..49cbd4b 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -165,6 +165,11 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else if (code>=0x10000) {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    } else {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
-- 
2.43.0


From 998c81d6f252b70b2ebfb71d40a25454250b8766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 23/50] fix: JSON answers misread literals whose text looks
 like a tag or datatype

---
 Query/ResultSet.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/Query/ResultSet.cpp b/Query/ResultSet.cpp
index 51a5650..162ab20 100644
--- a/Query/ResultSet.cpp
+++ b/Query/ResultSet.cpp
@@ -225,9 +225,11 @@ ResultSet::to_JSON()
 				}
 				else if (ans_str[0] == '"')
 				{
-					if (ans_str.find("\"^^<") == string::npos)
+					// the text of a literal ends at its last quote: datatypes and language tags contain none
+					size_t last_quote = ans_str.rfind('"');
+					if (ans_str.compare(last_quote, 4, "\"^^<") != 0)
 					{
-						if (ans_str.find("\"@") != string::npos)
+						if (ans_str.compare(last_quote, 2, "\"@") == 0 && last_quote > 0)
 						{
 							//for language string
 							ans_type = "literal";
@@ -253,9 +255,9 @@ ResultSet::to_JSON()
 						if (ans_str[ans_str.length() - 1] == '>')
 						{
 							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
+							int pos = last_quote;
 							// string data_type = ans_str.substr(pos + 4, ans_str.length() - pos - 5);
-							iterStart = ans_str.begin();
+							iterStart = ans_str.begin() + pos;
 							iterEnd = ans_str.end();
 							while (regex_search(iterStart, iterEnd, matchResult, dataTypePattern))
 							{
@@ -284,7 +286,7 @@ ResultSet::to_JSON()
 						{
 							// the entity value is not complete
 							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
+							int pos = last_quote;
 							data_type = "http://www.w3.org/2001/XMLSchema#string-not-complete";
 							ans_str = ans_str.substr(0, pos+1);
 							_buf << "\"" + this->var_name[j].substr(1) + "\": { ";
@@ -434,9 +436,11 @@ ResultSet::to_JSON()
 				}
 				else if (ans_str[0] == '"')
 				{
-					if (ans_str.find("\"^^<") == string::npos)
+					// the text of a literal ends at its last quote: datatypes and language tags contain none
+					size_t last_quote = ans_str.rfind('"');
+					if (ans_str.compare(last_quote, 4, "\"^^<") != 0)
 					{
-						if (ans_str.find("\"@") != string::npos)
+						if (ans_str.compare(last_quote, 2, "\"@") == 0 && last_quote > 0)
 						{
 							//for language string
 							ans_type = "literal";
@@ -456,9 +460,9 @@ ResultSet::to_JSON()
 						if (ans_str[ans_str.length() - 1] == '>')
 						{
 							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
+							int pos = last_quote;
 							// string data_type = ans_str.substr(pos + 4, ans_str.length() - pos - 5);
-							iterStart = ans_str.begin();
+							iterStart = ans_str.begin() + pos;
 							iterEnd = ans_str.end();
 							while (regex_search(iterStart, iterEnd, matchResult, dataTypePattern))
 							{
@@ -484,7 +488,7 @@ ResultSet::to_JSON()
 						{
 							// the entity value is not complete
 							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
+							int pos = last_quote;
 							data_type = "http://www.w3.org/2001/XMLSchema#string-not-complete";
 							ans_str = ans_str.substr(1, pos-1);
 						}
-- 
2.43.0


From 4ab484b7db43db54bdfeb2a850b2121dcc4ca688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 24/50] fix: a quote inside a long string swallowed the next
 character

---
 Parser/TurtleParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 49cbd4b..ecfc93a 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -219,9 +219,9 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    while (read(c)) {
       if (c=='\"') {
          if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
+         if (c!='\"') { token+='\"'; unread(); continue; }
          if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
+         if (c!='\"') { token+="\"\""; unread(); continue; }
          return String;
       }
       if (c=='\\') {
-- 
2.43.0


From 2adceea2f582abbd941d075bd58a22573f0b6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 25/50] fix: unsupported property paths were silently taken for
 a predicate

---
 Parser/QueryParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 3c75a3f..063697e 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1174,6 +1174,10 @@ antlrcpp::Any QueryParser::visitTriplesSameSubjectpath(SPARQLParser::TriplesSame
 		auto verbpathOrSimple = propertyListpathNotEmpty->verbpathOrSimple(i);
 		if (verbpathOrSimple->verbpath())
 		{
+			auto pathAlternative = verbpathOrSimple->verbpath()->path()->pathAlternative();
+			if (pathAlternative->pathSequence().size() != 1 || pathAlternative->pathSequence(0)->pathEltOrInverse().size() != 1
+				|| pathAlternative->pathSequence(0)->pathEltOrInverse(0)->getText()[0] == '^')
+				throw runtime_error("[ERROR]	Only support iri* as property path.");
 			auto pathMod = verbpathOrSimple->verbpath()->path()->pathAlternative()->pathSequence(0) \
 				->pathEltOrInverse(0)->pathElt()->pathMod();
 			auto pathPrimary = verbpathOrSimple->verbpath()->path()->pathAlternative()->pathSequence(0) \
-- 
2.43.0


From 6590ae5d1013b8d7c0f8d376cf0e56170a0ceca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 26/50] fix: INSERT DATA stored variables and literal subjects
 as triples

---
 Parser/QueryParser.cpp | 22 ++++++++++++++++++++++
 Parser/QueryParser.h   |  1 +
 2 files changed, 23 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 063697e..059abb6 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1421,10 +1421,31 @@ antlrcpp::Any QueryParser::visitInsertData(SPARQLParser::InsertDataContext *ctx)
 	query_tree_ptr->setUpdateType(QueryTree::Insert_Data);
 
 	visit(ctx->quadData());
+	checkQuadData(query_tree_ptr->getInsertPatterns());
 
 	return antlrcpp::Any();
 }
 
+/**
+	Helper function that refuses INSERT DATA and DELETE DATA whose triples are not RDF triples:
+	they may not have variables, nor a literal as subject or predicate.
+
+	@param group_pattern the triples.
+*/
+void QueryParser::checkQuadData(const GroupPattern &group_pattern)
+{
+	for (const auto &sub_group : group_pattern.sub_group_pattern)
+	{
+		if (sub_group.type != GroupPattern::SubGroupPattern::Pattern_type)
+			continue;
+		for (const string &value : {sub_group.pattern.subject.value, sub_group.pattern.predicate.value, sub_group.pattern.object.value})
+			if (value.empty() || value[0] == '?' || value[0] == '$')
+				throw runtime_error("[ERROR]	Variables are not allowed in INSERT DATA or DELETE DATA.");
+		if (sub_group.pattern.subject.value[0] != '<' || sub_group.pattern.predicate.value[0] != '<')
+			throw runtime_error("[ERROR]	The subject and the predicate of a triple must be IRIs.");
+	}
+}
+
 /**
 	deleteData : KK_DELETEDATA quadData ;
 	Visit node deleteData: set update type as Delete_Data.
@@ -1439,6 +1460,7 @@ antlrcpp::Any QueryParser::visitDeleteData(SPARQLParser::DeleteDataContext *ctx)
 	query_tree_ptr->setUpdateType(QueryTree::Delete_Data);
 
 	visit(ctx->quadData());
+	checkQuadData(query_tree_ptr->getDeletePatterns());
 
 	return antlrcpp::Any();
 }
diff --git a/Parser/QueryParser.h b/Parser/QueryParser.h
index 6606bcb..99d7984 100644
--- a/Parser/QueryParser.h
+++ b/Parser/QueryParser.h
@@ -74,6 +74,7 @@ public:
 	void parseSelectAggregateFunction(SPARQLParser::ExpressionContext *expCtx, \
 		SPARQLParser::VarContext *varCtx);
 	void buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, CompTreeNode &curr_node);
+	void checkQuadData(const GroupPattern &group_pattern);
 	void addTriple(std::string subject, std::string predicate, std::string object, bool kleene, \
 		GroupPattern &group_pattern);
 	void replacePrefix(std::string &str);
-- 
2.43.0


From 0d719579aaf75cd6ddc7e990673d3042bf511815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 27/50] fix: cross products lost the string values of all but
 the first combination

---
 Query/TempResult.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 7e421e2..7e8e6b8 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -350,12 +350,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
@@ -370,12 +368,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
-- 
2.43.0


From 291b5f0b10146b6974d72288adb19a9a80377a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 28/50] fix: count only the effective changes of an update
 inside a transaction

---
 Database/Database.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index bffe02b..cb1d0be 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3327,6 +3327,13 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		return false;
 	}
 
+	// a triple the transaction already sees needs no new version, its locks are released with the others
+	if (txn != nullptr && this->exist_triple(_sub_id, _pre_id, _obj_id, txn))
+	{
+		txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		return false;
+	}
+
 	// if this is not a new triple, return directly (in case of no transaction)
 	if (txn == nullptr)
 	{
@@ -3398,6 +3405,12 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		return false;
 	}
 
+	if (txn != nullptr && !this->exist_triple(_sub_id, _pre_id, _obj_id, txn))
+	{
+		txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		return false;
+	}
+
 	if (txn == nullptr)
 	{
 		bool _exist_triple = this->exist_triple(_sub_id, _pre_id, _obj_id, txn);
-- 
2.43.0


From 11876f2573b5ab153bd537f14b8fe3d033646fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 29/50] fix: keep the triple and subject counters right when a
 checkpoint merges transactions

---
 Database/Database.cpp    | 17 +++++++++++++++--
 Database/Txn_manager.cpp |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index cb1d0be..89fabfa 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3256,7 +3256,8 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 	{
 		_is_new_sub = true;
 		_sub_id = this->allocEntityID();
-		this->sub_num++;
+		if (txn == nullptr)
+			this->sub_num++;
 		(this->kvstore)->setIDByEntity(_triple.subject, _sub_id);
 		(this->kvstore)->setEntityByID(_sub_id, _triple.subject);
 
@@ -4741,7 +4742,18 @@ bool Database::getFinalResult(SPARQLquery &_sparql_q, ResultSet &_result_set)
 void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids, vector<unsigned> &obj_literal_ids, vector<unsigned> &pre_ids)
 {
 	// vector<unsigned> sub_ids , obj_ids, obj_literal_ids, pre_ids;
+	// the counters do not change while transactions run: account for the merged versions here
+	for (auto &_pre_id : pre_ids)
+		this->triples_num -= this->kvstore->getPredicateDegree(_pre_id);
+	for (auto &_sub_id : sub_ids)
+		if (this->kvstore->getEntityOutDegree(_sub_id) != 0)
+			this->sub_num--;
 	(this->kvstore)->IVArrayVacuum(sub_ids, obj_ids, obj_literal_ids, pre_ids);
+	for (auto &_pre_id : pre_ids)
+		this->triples_num += this->kvstore->getPredicateDegree(_pre_id);
+	for (auto &_sub_id : sub_ids)
+		if (this->kvstore->getEntityOutDegree(_sub_id) != 0)
+			this->sub_num++;
 	vector<TYPE_ENTITY_LITERAL_ID> vertices, predicates;
 	// update
 	int sub_degree, obj_degree, pre_degree;
@@ -4760,7 +4772,6 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 			this->kvstore->subIDByEntity(sub_str);
 			this->kvstore->subEntityByID(_sub_id);
 			this->freeEntityID(_sub_id);
-			this->sub_num--;
 			// update the string buffer
 			// if (_sub_id < this->entity_buffer_size)
 			//{
@@ -4826,6 +4837,8 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 		{
 			string pre_str = this->kvstore->getPredicateByID(_pre_id);
 			// cerr << "pre_str" << pre_str << endl;
+			if (pre_str == "")
+				continue;
 			this->kvstore->subIDByPredicate(pre_str);
 			this->kvstore->subPredicateByID(_pre_id);
 			this->freePredicateID(_pre_id);
diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index 67a8cfd..f126916 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -298,6 +298,8 @@ void Txn_manager::Checkpoint()
 	//cout << "obj_literal_ids.size(): " << obj_literal_ids.size() << endl;
  	if(db != nullptr)
 		db->VersionClean(sub_ids, obj_ids, obj_literal_ids, pre_ids);
+	for(auto& keys: DirtyKeys)
+		keys.clear();
 	checkpoint_lock.unlock();
 }
 
-- 
2.43.0


From ddd3ee67b88ce683fd680b24b8a63f2947007bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 30/50] fix: clean the ids a rolled back transaction allocated

---
 Database/Database.cpp    | 8 ++++++++
 Database/Txn_manager.cpp | 5 ++++-
 Util/Transaction.cpp     | 6 ++++++
 Util/Transaction.h       | 4 ++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 89fabfa..a8e6432 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3258,6 +3258,8 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		_sub_id = this->allocEntityID();
 		if (txn == nullptr)
 			this->sub_num++;
+		else
+			txn->NewSetInsert(_sub_id, Transaction::IDType::SUBJECT);
 		(this->kvstore)->setIDByEntity(_triple.subject, _sub_id);
 		(this->kvstore)->setEntityByID(_sub_id, _triple.subject);
 
@@ -3273,6 +3275,8 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 	{
 		_is_new_pre = true;
 		_pre_id = this->allocPredicateID();
+		if (txn != nullptr)
+			txn->NewSetInsert(_pre_id, Transaction::IDType::PREDICATE);
 		(this->kvstore)->setIDByPredicate(_triple.predicate, _pre_id);
 		(this->kvstore)->setPredicateByID(_pre_id, _triple.predicate);
 
@@ -3294,6 +3298,8 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		{
 			_is_new_obj = true;
 			_obj_id = this->allocEntityID();
+			if (txn != nullptr)
+				txn->NewSetInsert(_obj_id, Transaction::IDType::OBJECT);
 			(this->kvstore)->setIDByEntity(_triple.object, _obj_id);
 			(this->kvstore)->setEntityByID(_obj_id, _triple.object);
 
@@ -3311,6 +3317,8 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		{
 			_is_new_obj = true;
 			_obj_id = this->allocLiteralID();
+			if (txn != nullptr)
+				txn->NewSetInsert(_obj_id, Transaction::IDType::OBJECT);
 			(this->kvstore)->setIDByLiteral(_triple.object, _obj_id);
 			(this->kvstore)->setLiteralByID(_obj_id, _triple.object);
 
diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index f126916..1f5f8d1 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -217,8 +217,9 @@ int Txn_manager::Abort(txn_id_t TID)
 	//writelog(log_str);
 	txn->SetState(TransactionState::ABORTED);
 	txn->SetEndTime(Util::get_cur_time());
+	//ids allocated for its insertions are to be cleaned
+	add_dirty_keys(txn);
 	checkpoint_lock.unlock();
-	//add_dirty_keys(txn);
 	return 0;
 }
 
@@ -390,9 +391,11 @@ void Txn_manager::add_dirty_keys(shared_ptr<Transaction> txn)
 	//lock_guard<mutex> lck(DirtyKeys_lock);
 	DirtyKeys_lock.lock();
 	const vector<IDSet> & sets = txn->Get_WriteSet();
+	const vector<IDSet> & news = txn->Get_NewSet();
 	for(int i = 0; i < 3; i++)
 	{
 		DirtyKeys[i].insert(sets[i].begin(), sets[i].end());
+		DirtyKeys[i].insert(news[i].begin(), news[i].end());
 	}
 	DirtyKeys_lock.unlock();
 }
\ No newline at end of file
diff --git a/Util/Transaction.cpp b/Util/Transaction.cpp
index 401519b..d269e9c 100644
--- a/Util/Transaction.cpp
+++ b/Util/Transaction.cpp
@@ -38,6 +38,7 @@ Transaction::Transaction(string name, TYPE_TS time, txn_id_t _TID, IsolationLeve
 	{
 		IDSet s;
 		this->WriteSet.push_back(s);
+		this->NewSet.push_back(s);
 	}
 }
 
@@ -71,6 +72,11 @@ void Transaction::WriteSetDelete(IDTriple _Triple)
 	this->WriteSet[(unsigned)Transaction::IDType::OBJECT].erase(_Triple.get_object());
 }
 
+void Transaction::NewSetInsert(TYPE_ENTITY_LITERAL_ID _ID, Transaction::IDType _type)
+{
+	this->NewSet[(unsigned)_type].insert(_ID);
+}
+
 bool Transaction::WriteSetFind(TYPE_ENTITY_LITERAL_ID _ID, Transaction::IDType _type )
 {
 	return this->WriteSet[(unsigned)_type].count(_ID) != 0; //true is not write before!
diff --git a/Util/Transaction.h b/Util/Transaction.h
index 07b139f..65e8a56 100644
--- a/Util/Transaction.h
+++ b/Util/Transaction.h
@@ -35,6 +35,7 @@ private:
 	//latch table
 	vector<IDSet> ReadSet; //shared latches
 	vector<IDSet> WriteSet; //exclusive locks and latchess
+	vector<IDSet> NewSet; //ids allocated by this transaction
 	
 	//TXNSet DependedTXNSet;
 	
@@ -80,6 +81,8 @@ public:
 	void WriteSetDelete(IDTriple _Triple);
 	bool WriteSetFind(TYPE_ENTITY_LITERAL_ID _ID, Transaction::IDType _type);
 	
+	void NewSetInsert(TYPE_ENTITY_LITERAL_ID _ID, Transaction::IDType _type);
+	
 	//void DependedTXNSetInsert(TYPE_TXN_ID _TID);
 	//void DependedTXNSetDelete(TYPE_TXN_ID _TID);
 	
@@ -89,6 +92,7 @@ public:
 	//inline TripleSet& Get_DelSet() { return this->DelSet; }
 	inline const vector<IDSet>& Get_WriteSet() {return this->WriteSet; }
 	inline const vector<IDSet>& Get_ReadSet() {return this->ReadSet; }
+	inline const vector<IDSet>& Get_NewSet() {return this->NewSet; }
 	
 	int get_wait_lock_time() { return this->wait_lock_time;}
 	int get_retry_times() { return this->retry_times; }
-- 
2.43.0


From 25e1748ec2d7d27840ad4d5d24c17bc422ed20bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 31/50] fix: record a shared latch on a predicate only when it
 was taken

---
 KVstore/KVstore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/KVstore.cpp b/KVstore/KVstore.cpp
index 4eceb11..0230c0e 100644
--- a/KVstore/KVstore.cpp
+++ b/KVstore/KVstore.cpp
@@ -4239,7 +4239,7 @@ KVstore::getsubIDlistBypreID(TYPE_PREDICATE_ID _preid, unsigned*& _subidlist, un
 			return false;
 		}
 		
-		if(IS_SI && FirstRead && FirstRead)
+		if(IS_SI && latched && FirstRead)
 			txn->ReadSetInsert(_preid, Transaction::IDType::PREDICATE);
 
 		vector<unsigned> add_sidoidlist, del_sidoidlist;
@@ -4351,7 +4351,7 @@ KVstore::getobjIDlistBypreID(TYPE_PREDICATE_ID _preid, unsigned*& _objidlist, un
 			return false;
 		}
 		
-		if(IS_SI && FirstRead && FirstRead)
+		if(IS_SI && latched && FirstRead)
 			txn->ReadSetInsert(_preid, Transaction::IDType::PREDICATE);
 
 		vector<unsigned> add_sidoidlist, del_sidoidlist;
-- 
2.43.0


From 02be9333f141cde271139bc2c5ae72aadad93f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 32/50] fix: an insertion and a deletion of one triple in a
 transaction undo each other

---
 Util/Version.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/Util/Version.cpp b/Util/Version.cpp
index cf2481c..b902842 100644
--- a/Util/Version.cpp
+++ b/Util/Version.cpp
@@ -56,6 +56,17 @@ void Version::expand(int num)
 
 void Version::add(VData value)
 {
+	// a removal of the same value in this version is undone instead
+	for(unsigned k = 0; k < data[2]; k++)
+	{
+		unsigned i = data[0]-1-2*k;
+		if(data[i] != value.first || data[i-1] != value.second) continue;
+		unsigned last = data[0]-1-2*(data[2]-1);
+		data[i] = data[last];
+		data[i-1] = data[last-1];
+		data[2]--;
+		return;
+	}
 	expand(1);
 	data[2*data[1]+4] = value.first;
 	data[2*data[1]+5] = value.second;
@@ -64,6 +75,17 @@ void Version::add(VData value)
 
 void Version::remove(VData value)
 {
+	// an addition of the same value in this version is undone instead
+	for(unsigned k = 0; k < data[1]; k++)
+	{
+		unsigned i = 2*k+4;
+		if(data[i] != value.first || data[i+1] != value.second) continue;
+		unsigned last = 2*(data[1]-1)+4;
+		data[i] = data[last];
+		data[i+1] = data[last+1];
+		data[1]--;
+		return;
+	}
 	expand(1);
 	data[data[0]-1-2*data[2]] = value.first;
 	data[data[0]-2-2*data[2]] = value.second;
-- 
2.43.0


From c76d695c0ef2a0dea56df28efb88d40bc886d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 33/50] fix: a serializable read of a version older than the
 latest one aborts

---
 KVstore/IVArray/IVEntry.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/KVstore/IVArray/IVEntry.cpp b/KVstore/IVArray/IVEntry.cpp
index a322f92..0632700 100644
--- a/KVstore/IVArray/IVEntry.cpp
+++ b/KVstore/IVArray/IVEntry.cpp
@@ -230,11 +230,13 @@ IVEntry::checkVersion(TYPE_TXN_ID TID, bool IS_RC)
 int 
 IVEntry::checkheadVersion(TYPE_TXN_ID TID)
 {
-	int n = vList.size();
-	int ret = 0;
-	if((vList[n-1]->get_begin_ts() == INVALID_TS && TID > vList[n-1]->get_end_ts())) ret = -1; //try reading not owned uncommitted version, abort
-	if(vList[n-1]->get_begin_ts() <= TID) ret = 1; //try aquiring the lock(maybe failed because new verison is not added in list yet)
-	return ret;
+	auto latest = vList.back();
+	if(latest->get_begin_ts() == INVALID_TS)
+		return latest->get_end_ts() == TID ? 1 : -1; //not owned uncommitted version, abort
+	//a version committed after this transaction began: reading the older one would order this transaction
+	//before its writer, which can no longer be kept from having read what this transaction writes, abort
+	if(TID < latest->get_begin_ts()) return -1;
+	return 1; //try aquiring the lock
 }
 
 //SI and SR
-- 
2.43.0


From 93e7978f959729e7f134173c7c7e0ff4b109eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 34/50] fix: a request reads the extent of the ids after it has
 its lock, not before

---
 Database/Database.cpp       |  6 ++++++
 Query/GeneralEvaluation.cpp | 14 ++++++++++++++
 Query/GeneralEvaluation.h   |  9 +++++++--
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index a8e6432..65232c0 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1773,6 +1773,9 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		}
 		if (txn == nullptr)
 			cout << "read priviledge of update lock acquired" << endl;
+		// another request may have changed the database between parsing and locking
+		general_evaluation.refreshExtent(this->triples_num, this->limitID_predicate, this->limitID_literal, this->limitID_entity,
+										 this->getfreelist_entity(), this->getentity_num());
 
 		// copy the string index for each query thread
 		// StringIndex tmpsi = *this->stringindex;
@@ -1835,6 +1838,9 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		}
 		if (txn == nullptr)
 			cout << "write priviledge of update lock acquired" << endl;
+		// another request may have changed the database between parsing and locking
+		general_evaluation.refreshExtent(this->triples_num, this->limitID_predicate, this->limitID_literal, this->limitID_entity,
+										 this->getfreelist_entity(), this->getentity_num());
 
 		success_num = 0;
 		TripleWithObjType *update_triple = NULL;
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 9fffd7d..099789a 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -132,6 +132,20 @@ GeneralEvaluation::GeneralEvaluation(KVstore *_kvstore, StringIndex *_stringinde
 	this->bgp_query_total = make_shared<BGPQuery>();
 }
 
+void
+GeneralEvaluation::refreshExtent(TYPE_TRIPLE_NUM _triples_num, TYPE_PREDICATE_ID _limitID_predicate,
+								 TYPE_ENTITY_LITERAL_ID _limitID_literal, TYPE_ENTITY_LITERAL_ID _limitID_entity,
+								 const BlockInfo *freelist_entity, TYPE_ENTITY_LITERAL_ID entity_num)
+{
+	this->triples_num = _triples_num;
+	this->limitID_predicate = _limitID_predicate;
+	this->limitID_literal = _limitID_literal;
+	this->limitID_entity = _limitID_entity;
+	this->all_entity_id = AllEntityId(freelist_entity, entity_num);
+	this->optimizer_ = make_shared<Optimizer>(kvstore,pre2num,pre2sub,pre2obj,triples_num,limitID_predicate,
+                                      limitID_literal,limitID_entity,txn);
+}
+
 void
 GeneralEvaluation::loadCSR()
 {
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index 2523754..f1620de 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -60,8 +60,8 @@ class GeneralEvaluation
 		// freelist_entity+entity_num: used for getting all entity id as sources in kleeneClosure evaluation
 		class AllEntityId
 		{
-			const BlockInfo *const freelist_entity,*head; // deleted entity id
-			const TYPE_ENTITY_LITERAL_ID entity_num;
+			const BlockInfo *freelist_entity,*head; // deleted entity id
+			TYPE_ENTITY_LITERAL_ID entity_num;
 			TYPE_ENTITY_LITERAL_ID next_id, iter_cnt; 
 		public:
 			AllEntityId(const BlockInfo *const freelist_entity, TYPE_ENTITY_LITERAL_ID entity_num):freelist_entity(freelist_entity),head(freelist_entity),entity_num(entity_num),next_id(0),iter_cnt(0){}
@@ -109,6 +109,11 @@ class GeneralEvaluation
 		bool parseQuery(const std::string &_query);
 		QueryTree& getQueryTree();
 
+		// take over the current extent of the database (called when the database is locked, before the evaluation)
+		void refreshExtent(TYPE_TRIPLE_NUM _triples_num, TYPE_PREDICATE_ID _limitID_predicate,
+						  TYPE_ENTITY_LITERAL_ID _limitID_literal, TYPE_ENTITY_LITERAL_ID _limitID_entity,
+						  const BlockInfo *freelist_entity, TYPE_ENTITY_LITERAL_ID entity_num);
+
 		bool doQuery();
 
 		void addAllTriples(const GroupPattern &group_pattern);
-- 
2.43.0


From 5fc6443c53bf291bd7270aac2e7a022018d54b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 35/50] fix: prefixed names and 'a' were not expanded as
 predicates of an update

---
 Parser/QueryParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 059abb6..92661ab 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1676,6 +1676,9 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 */
 
 string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
+		if (predicate == "a")
+			predicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
+		replacePrefix(predicate);
 {
 	string baseText = ctx->getText(), suffix, val;
 	size_t sufIdx = baseText.find("^^");
-- 
2.43.0


From a8dedea44563de19639563835e8d2beb74f8c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 36/50] fix: prefixed names were not expanded in expressions

---
 Parser/QueryParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 92661ab..e194342 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -697,7 +697,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 				buildCompTree(root->children[0], -1, curr_node);
 			else
 			{
-				// var from varCtx
+				// var from varCtx, or a constant
 				curr_node.oprt = "";
 				// curr_node.lchild = NULL;
 				// curr_node.rchild = NULL;
@@ -785,6 +785,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 			buildCompTree(((SPARQLParser::RelationalexpressionContext *)root)->numericexpression()[0], -1, curr_node.children[0]);
 			int numChild = 1;
 			for (auto expression : \
+				replacePrefix(curr_node.val);
 				((SPARQLParser::RelationalexpressionContext *)root)->expressionList()->expression())
 			{
 				curr_node.children.push_back(CompTreeNode());
-- 
2.43.0


From 078f75e1dda29e58e8391fcd860755259b249a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 37/50] fix: $variables, single-quoted strings, escapes and a
 ^^ inside a literal were taken for other terms

---
 Parser/QueryParser.cpp | 49 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index e194342..7a6cda6 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -37,6 +37,9 @@ void QueryParser::SPARQLParse(const string &query)
 	lexer.addErrorListener(&lstnr);
 
 	antlr4::CommonTokenStream tokens(&lexer);
+	tokens.fill();
+	for (antlr4::Token *token : tokens.getTokens())
+		normalizeToken(token);
 	SPARQLParser parser(&tokens);
 	parser.removeErrorListeners();
 	parser.addErrorListener(&lstnr);
@@ -53,6 +56,45 @@ void QueryParser::SPARQLParse(const string &query)
 
 /**
 	Print the info of the parse tree node pointed to by ctx.
+/**
+	Helper function that gives a token the one form the rest of the parser and the dictionary use:
+	variables start with '?', string literals are in double quotes and have their escapes decoded.
+
+	@param token a token of the query.
+*/
+void QueryParser::normalizeToken(antlr4::Token *token)
+{
+	antlr4::WritableToken *writable = dynamic_cast<antlr4::WritableToken *>(token);
+	if (writable == NULL)
+		return;
+
+	string text = token->getText();
+	if (token->getType() == SPARQLLexer::VAR2)
+		writable->setText("?" + text.substr(1));
+	else if (token->getType() == SPARQLLexer::STRING_LITERAL1 || token->getType() == SPARQLLexer::STRING_LITERAL2)
+	{
+		string decoded = "\"";
+		for (size_t i = 1; i + 1 < text.length(); i++)
+		{
+			if (text[i] != '\\')
+			{
+				decoded += text[i];
+				continue;
+			}
+			switch (text[++i])
+			{
+				case 't': decoded += '\t'; break;
+				case 'b': decoded += '\b'; break;
+				case 'n': decoded += '\n'; break;
+				case 'r': decoded += '\r'; break;
+				case 'f': decoded += '\f'; break;
+				default: decoded += text[i];
+			}
+		}
+		writable->setText(decoded + "\"");
+	}
+}
+
 
 	@param ctx pointer to the requested parse tree node's context.
 	@param nodeTypeName type of the parse tree node.
@@ -1622,6 +1664,7 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 			numType = 1;
 		else if (ctx->numericLiteralPositive()->double_positive())
 			numType = 2;
+	checkTerm(ctx->varOrTerm());
 	}
 	else if (ctx->numericLiteralNegative())
 	{
@@ -1633,6 +1676,9 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 			numType = 2;
 	}
 	switch (numType)
+		if (predicate == "a")
+			predicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
+		replacePrefix(predicate);
 	{
 		case 0:
 		{
@@ -1677,9 +1723,6 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 */
 
 string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
-		if (predicate == "a")
-			predicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
-		replacePrefix(predicate);
 {
 	string baseText = ctx->getText(), suffix, val;
 	size_t sufIdx = baseText.find("^^");
-- 
2.43.0


From a61a23427f8d8833843a8332f480befb6446aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 38/50] fix: parts of a request that are not supported were
 ignored, or crashed the parser

---
 Parser/QueryParser.cpp | 132 +++++++++++++++++++++++++++++++++++------
 Parser/QueryParser.h   |   7 +++
 2 files changed, 120 insertions(+), 19 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 7a6cda6..a1e5087 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -45,6 +45,8 @@ void QueryParser::SPARQLParse(const string &query)
 	parser.addErrorListener(&lstnr);
 
 	SPARQLParser::EntryContext *tree = parser.entry();
+	if (parser.getCurrentToken()->getType() != antlr4::Token::EOF)
+		throw runtime_error("[Syntax Error]:unexpected text after the query: " + parser.getCurrentToken()->getText());
 	visitEntry(tree);
 	}catch(const runtime_error& e1)
 	{
@@ -54,8 +56,6 @@ void QueryParser::SPARQLParse(const string &query)
 	
 }
 
-/**
-	Print the info of the parse tree node pointed to by ctx.
 /**
 	Helper function that gives a token the one form the rest of the parser and the dictionary use:
 	variables start with '?', string literals are in double quotes and have their escapes decoded.
@@ -95,6 +95,8 @@ void QueryParser::normalizeToken(antlr4::Token *token)
 	}
 }
 
+/**
+	Print the info of the parse tree node pointed to by ctx.
 
 	@param ctx pointer to the requested parse tree node's context.
 	@param nodeTypeName type of the parse tree node.
@@ -176,11 +178,48 @@ antlrcpp::Any QueryParser::visitQuery(SPARQLParser::QueryContext *ctx)
 		visit(ctx->askquery());
 	}
 
-	visit(ctx->valuesClause());
+	refuse(!ctx->valuesClause()->children.empty(), "VALUES");
 
 	return antlrcpp::Any();
 }
 
+/**
+	Helper function that throws an error for a part of the query which would otherwise be ignored.
+
+	@param present whether the query has that part.
+	@param part the name of the part.
+*/
+void QueryParser::refuse(bool present, const string &part)
+{
+	if (present)
+		throw runtime_error("[ERROR]	" + part + " is currently not supported.");
+}
+
+/**
+	Helper function that refuses terms other than variables, IRIs, literals and labelled blank nodes.
+
+	@param ctx the term (NULL for a collection or a blank node's property list).
+*/
+void QueryParser::checkTerm(SPARQLParser::VarOrTermContext *ctx)
+{
+	refuse(ctx == NULL || (ctx->graphTerm() && ctx->graphTerm()->NIL()), "A collection or a blank node's property list");
+	refuse(ctx->graphTerm() && ctx->graphTerm()->blankNode() && ctx->graphTerm()->blankNode()->ANON(), "[]");
+}
+
+/**
+	solutionModifier : groupClause? havingClause? orderClause? limitoffsetClauses? ;
+	Visit node solutionModifier: recursively call visit on its children, except havingClause
+	(currently not supported).
+
+	@param ctx pointer to solutionModifier's context.
+	@return a dummy antlrcpp::Any object.
+*/
+antlrcpp::Any QueryParser::visitSolutionModifier(SPARQLParser::SolutionModifierContext *ctx)
+{
+	refuse(ctx->havingClause(), "HAVING");
+	return visitChildren(ctx);
+}
+
 /**
 	selectquery : selectClause datasetClause* whereClause solutionModifier ;
 	Visit node selectquery: recursively call visit on each of its children, except
@@ -194,7 +233,7 @@ antlrcpp::Any QueryParser::visitSelectquery(SPARQLParser::SelectqueryContext *ct
 {
 	visit(ctx->selectClause());
 
-	// datasetClause not supported
+	refuse(!ctx->datasetClause().empty(), "FROM");
 
 	// Call explictly to pass group_pattern as a parameter
 	visitWhereClause(ctx->whereClause(), query_tree_ptr->getGroupPattern());
@@ -224,7 +263,7 @@ antlrcpp::Any QueryParser::visitAskquery(SPARQLParser::AskqueryContext *ctx)
 	query_tree_ptr->setProjectionModifier(QueryTree::Modifier_Distinct);
 	query_tree_ptr->setLimit(1);
 
-	// datasetClause not supported
+	refuse(!ctx->datasetClause().empty(), "FROM");
 
 	// Call explictly to pass group_pattern as a parameter
 	visitWhereClause(ctx->whereClause(), query_tree_ptr->getGroupPattern());
@@ -700,6 +739,8 @@ void QueryParser::parseSelectAggregateFunction(SPARQLParser::ExpressionContext *
 */
 void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, CompTreeNode &curr_node)
 {
+	refuse(dynamic_cast<SPARQLParser::ExistsFuncContext *>(root) != NULL || dynamic_cast<SPARQLParser::NotexistsFuncContext *>(root) != NULL, "EXISTS");
+	refuse(dynamic_cast<SPARQLParser::AggregateContext *>(root) != NULL, "An aggregate inside an expression");
 	if (root->children.size() == 1)
 	{
 		// TODO: add handling for builtInCall (just put function name in oprt), 
@@ -744,6 +785,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 				// curr_node.lchild = NULL;
 				// curr_node.rchild = NULL;
 				curr_node.val = root->getText();
+				replacePrefix(curr_node.val);
 			}
 		}
 	}
@@ -827,7 +869,6 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 			buildCompTree(((SPARQLParser::RelationalexpressionContext *)root)->numericexpression()[0], -1, curr_node.children[0]);
 			int numChild = 1;
 			for (auto expression : \
-				replacePrefix(curr_node.val);
 				((SPARQLParser::RelationalexpressionContext *)root)->expressionList()->expression())
 			{
 				curr_node.children.push_back(CompTreeNode());
@@ -963,6 +1004,7 @@ antlrcpp::Any QueryParser::visitSubSelect_inner(SPARQLParser::SubSelectContext *
     //solutionModifier
     visit(ctx->solutionModifier());
     //valuesClause
+    refuse(!ctx->valuesClause()->children.empty(), "VALUES");
 	return antlrcpp::Any();
 }
 /**
@@ -1032,12 +1074,13 @@ antlrcpp::Any QueryParser::visitGraphPatternNotTriples(SPARQLParser::GraphPatter
 		visitOptionalGraphPattern(ctx->optionalGraphPattern(), group_pattern);
 	else if (ctx->minusGraphPattern())
 		visitMinusGraphPattern(ctx->minusGraphPattern(), group_pattern);
-	// graphGraphPattern not supported
-	// serviceGraphPattern not supported
 	else if (ctx->filter())
 		visitFilter(ctx->filter(), group_pattern);
 	else if (ctx->bind())
 		visitBind(ctx->bind(), group_pattern);
+	refuse(ctx->graphGraphPattern(), "GRAPH");
+	refuse(ctx->serviceGraphPattern(), "SERVICE");
+	refuse(ctx->inlineData(), "VALUES");
 
 	return antlrcpp::Any();
 }
@@ -1192,6 +1235,7 @@ antlrcpp::Any QueryParser::visitTriplesSameSubjectpath(SPARQLParser::TriplesSame
 	string subject, predicate, object;
 	bool kleene = false;
 
+	checkTerm(ctx->varOrTerm());
 	subject = ctx->varOrTerm()->getText();
 	if (ctx->varOrTerm()->graphTerm() && ctx->varOrTerm()->graphTerm()->blankNode())
 		subject = "<" + subject + ">";
@@ -1246,6 +1290,7 @@ antlrcpp::Any QueryParser::visitTriplesSameSubjectpath(SPARQLParser::TriplesSame
 		{
 			for (auto objectpath : propertyListpathNotEmpty->objectListpath()->objectpath())
 			{
+				checkTerm(objectpath->graphNodepath()->varOrTerm());
 				if (objectpath->graphNodepath()->varOrTerm() \
 					&& objectpath->graphNodepath()->varOrTerm()->graphTerm() \
 					&& objectpath->graphNodepath()->varOrTerm()->graphTerm()->numericLiteral())
@@ -1269,6 +1314,7 @@ antlrcpp::Any QueryParser::visitTriplesSameSubjectpath(SPARQLParser::TriplesSame
 			auto objectList = propertyListpathNotEmpty->objectList(i - 1);
 			for (auto object_ptr : objectList->object())
 			{
+				checkTerm(object_ptr->graphNode()->varOrTerm());
 				if (object_ptr->graphNode()->varOrTerm() \
 					&& object_ptr->graphNode()->varOrTerm()->graphTerm() \
 					&& object_ptr->graphNode()->varOrTerm()->graphTerm()->numericLiteral())
@@ -1447,6 +1493,35 @@ void QueryParser::replacePrefix(string &str)
 
 //------------------------------------------------------------------------------------------
 
+/**
+	update : prologue ( update1 ( ';' update )? )? ;
+	Visit node update: recursively call visit on its children. The data of several INSERT DATA
+	(or of several DELETE DATA) operations is put together; no other sequence is supported.
+
+	@param ctx pointer to update's context.
+	@return a dummy antlrcpp::Any object.
+*/
+antlrcpp::Any QueryParser::visitUpdate(SPARQLParser::UpdateContext *ctx)
+{
+	SPARQLParser::Update1Context *next = ctx->update() ? ctx->update()->update1() : NULL;
+	refuse(next && !(ctx->update1()->insertData() && next->insertData()) && !(ctx->update1()->deleteData() && next->deleteData()),
+		"A sequence of different updates");
+	return visitChildren(ctx);
+}
+
+/**
+	quadsNotTriples : K_GRAPH varOrIri '{' triplesTemplate? '}' ;
+	Named graphs are not supported.
+
+	@param ctx pointer to quadsNotTriples's context.
+	@return a dummy antlrcpp::Any object.
+*/
+antlrcpp::Any QueryParser::visitQuadsNotTriples(SPARQLParser::QuadsNotTriplesContext *ctx)
+{
+	refuse(true, "GRAPH");
+	return antlrcpp::Any();
+}
+
 /**
 	insertData : KK_INSERTDATA quadData ;
 	quadData : '{' quads '}' ;
@@ -1541,7 +1616,8 @@ antlrcpp::Any QueryParser::visitDeleteWhere(SPARQLParser::DeleteWhereContext *ct
 */
 antlrcpp::Any QueryParser::visitModify(SPARQLParser::ModifyContext *ctx)
 {
-	// ( 'WITH' iri )? not supported
+	refuse(ctx->K_WITH(), "WITH");
+	refuse(!ctx->usingClause().empty(), "USING");
 
 	if (ctx->deleteClause() && ctx->insertClause())
 	{
@@ -1563,8 +1639,6 @@ antlrcpp::Any QueryParser::visitModify(SPARQLParser::ModifyContext *ctx)
 		visit(ctx->insertClause());
 	}
 
-	// usingClause not supported
-
 	visitGroupGraphPattern(ctx->groupGraphPattern(), query_tree_ptr->getGroupPattern());
 
 	return antlrcpp::Any();
@@ -1590,6 +1664,7 @@ antlrcpp::Any QueryParser::visitTriplesSameSubject(SPARQLParser::TriplesSameSubj
 
 	string subject, predicate, object;
 
+	checkTerm(ctx->varOrTerm());
 	subject = ctx->varOrTerm()->getText();
 	if (ctx->varOrTerm()->graphTerm() && ctx->varOrTerm()->graphTerm()->blankNode())
 		subject = "<" + subject + ">";
@@ -1601,9 +1676,13 @@ antlrcpp::Any QueryParser::visitTriplesSameSubject(SPARQLParser::TriplesSameSubj
 	for (int i = 0; i < numChild; i++)
 	{
 		predicate = propertyListNotEmpty->verb(i)->getText();
+		if (predicate == "a")
+			predicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
+		replacePrefix(predicate);
 		auto objectList = propertyListNotEmpty->objectList(i);
 		for (auto object_ptr : objectList->object())
 		{
+			checkTerm(object_ptr->graphNode()->varOrTerm());
 			if (object_ptr->graphNode()->varOrTerm() \
 				&& object_ptr->graphNode()->varOrTerm()->graphTerm() \
 				&& object_ptr->graphNode()->varOrTerm()->graphTerm()->numericLiteral())
@@ -1664,7 +1743,6 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 			numType = 1;
 		else if (ctx->numericLiteralPositive()->double_positive())
 			numType = 2;
-	checkTerm(ctx->varOrTerm());
 	}
 	else if (ctx->numericLiteralNegative())
 	{
@@ -1676,9 +1754,6 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 			numType = 2;
 	}
 	switch (numType)
-		if (predicate == "a")
-			predicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
-		replacePrefix(predicate);
 	{
 		case 0:
 		{
@@ -1714,6 +1789,22 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 	return ret;
 }
 
+/**
+	Helper function that replaces the prefix in the datatype of a literal with its IRI.
+
+	@param literal a literal, with or without datatype.
+	@return the literal with the datatype's full IRI.
+*/
+string QueryParser::replaceDatatypePrefix(const string &literal)
+{
+	size_t quote = literal.rfind('"');
+	if (quote == string::npos || literal.compare(quote + 1, 2, "^^") != 0)
+		return literal;
+	string datatype = literal.substr(quote + 3);
+	replacePrefix(datatype);
+	return literal.substr(0, quote + 3) + datatype;
+}
+
 /**
 	Helper function that checks ranges for integer types, and get rids of NaN for float types.
 	Wrapper of getText.
@@ -1728,10 +1819,13 @@ string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
 	size_t sufIdx = baseText.find("^^");
 	if (baseText.empty() || baseText[0] != '"' || sufIdx == string::npos)
 		return baseText;
-	suffix = baseText.substr(sufIdx + 2);
-	val = baseText.substr(1, sufIdx - 2);
-	replacePrefix(suffix);
-	baseText = '"' + val + "\"^^" + suffix;
+	baseText = replaceDatatypePrefix(baseText);
+	// the text of the literal may contain "^^" too
+	sufIdx = baseText.rfind('"');
+	if (baseText.compare(sufIdx + 1, 2, "^^") != 0)
+		return baseText;
+	suffix = baseText.substr(sufIdx + 3);
+	val = baseText.substr(1, sufIdx - 1);
 	long long ll;
 	if (suffix == "<http://www.w3.org/2001/XMLSchema#integer>")
 	{
diff --git a/Parser/QueryParser.h b/Parser/QueryParser.h
index 99d7984..e7190ba 100644
--- a/Parser/QueryParser.h
+++ b/Parser/QueryParser.h
@@ -65,6 +65,9 @@ public:
 	antlrcpp::Any visitGroupClause(SPARQLParser::GroupClauseContext *ctx);
 	antlrcpp::Any visitOrderClause(SPARQLParser::OrderClauseContext *ctx);
 	
+	antlrcpp::Any visitSolutionModifier(SPARQLParser::SolutionModifierContext *ctx);
+	antlrcpp::Any visitUpdate(SPARQLParser::UpdateContext *ctx);
+	antlrcpp::Any visitQuadsNotTriples(SPARQLParser::QuadsNotTriplesContext *ctx);
 	antlrcpp::Any visitInsertData(SPARQLParser::InsertDataContext *ctx);
 	antlrcpp::Any visitDeleteData(SPARQLParser::DeleteDataContext *ctx);
 	antlrcpp::Any visitDeleteWhere(SPARQLParser::DeleteWhereContext *ctx);
@@ -75,11 +78,15 @@ public:
 		SPARQLParser::VarContext *varCtx);
 	void buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, CompTreeNode &curr_node);
 	void checkQuadData(const GroupPattern &group_pattern);
+	void checkTerm(SPARQLParser::VarOrTermContext *ctx);
+	void refuse(bool present, const std::string &part);
 	void addTriple(std::string subject, std::string predicate, std::string object, bool kleene, \
 		GroupPattern &group_pattern);
 	void replacePrefix(std::string &str);
 	std::string getNumeric(SPARQLParser::NumericLiteralContext *ctx);
 	std::string getTextWithRange(antlr4::tree::ParseTree *ctx);
+	std::string replaceDatatypePrefix(const std::string &literal);
+	void normalizeToken(antlr4::Token *token);
 
 	void printNode(antlr4::ParserRuleContext *ctx, const char *nodeTypeName);
 	void printTree(antlr4::tree::ParseTree *root, int dep);
-- 
2.43.0


From 8bc85858bbcc761e3acc0740085ade3307702197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 39/50] fix: a snapshot begun while a commit was being stamped
 saw part of it

---
 Database/Txn_manager.cpp | 10 ++++++++--
 Database/Txn_manager.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index 1f5f8d1..6f73dce 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -145,7 +145,9 @@ inline txn_id_t Txn_manager::ArrangeCommitID()
 txn_id_t Txn_manager::Begin(IsolationLevelType isolationlevel)
 {
 	checkpoint_lock.lockShared();
+	commit_lock.lock();
 	txn_id_t TID = this->ArrangeTID();
+	commit_lock.unlock();
 	if(TID == INVALID_ID)
 	{
 		cout << "TID wrapped, please run garbage clean!" << endl;
@@ -175,10 +177,14 @@ int Txn_manager::Commit(txn_id_t TID)
 		// checkpoint_lock.unlock();
 		return 1;
 	}
-	txn_id_t CID = this->ArrangeCommitID();
-	txn->SetCommitID(CID);
 	if(db != nullptr)
+	{
+		//a snapshot sees all of the keys this transaction wrote or none of them
+		lock_guard<mutex> lck(commit_lock);
+		txn_id_t CID = this->ArrangeCommitID();
+		txn->SetCommitID(CID);
 		db->TransactionCommit(txn);
+	}
 	else
 	{
 		cout << "error! database has been flushed or removed" << endl;
diff --git a/Database/Txn_manager.h b/Database/Txn_manager.h
index 4c18fb0..396e04d 100644
--- a/Database/Txn_manager.h
+++ b/Database/Txn_manager.h
@@ -38,6 +38,7 @@ private:
 	Latch checkpoint_lock;
 	Latch table_lock;
 	mutex DirtyKeys_lock;
+	mutex commit_lock;	//no transaction begins while another one's versions are being stamped
 	
 	vector<IDSet> DirtyKeys;
 	atomic<int> committed_num = {0};
-- 
2.43.0


From 972e4b864059677a40572fa926882cd5b2773c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 40/50] fix: two transactions inserting the same new term gave
 it two ids, or no string

---
 Database/Database.cpp | 19 +++++++++++++++----
 Database/Database.h   |  2 ++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 65232c0..c04ad78 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3252,6 +3252,8 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 
 	// long tv_kv_store_begin = Util::get_cur_time();
 
+	// transactions insert at the same time: a new term gets one id
+	unique_lock<mutex> new_term_guard(new_term_lock);
 	TYPE_ENTITY_LITERAL_ID _sub_id = (this->kvstore)->getIDByEntity(_triple.subject);
 	// if(txn != nullptr)
 	// 	cout << "Update in Transaction...................................................." << endl;
@@ -3333,6 +3335,19 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		}
 	}
 
+	// whoever finds the id of a new term finds its string as well
+	if (_vertices != NULL)
+	{
+		this->stringindex->change(*_vertices, *this->kvstore, true);
+		_vertices->clear();
+	}
+	if (_predicates != NULL)
+	{
+		this->stringindex->change(*_predicates, *this->kvstore, false);
+		_predicates->clear();
+	}
+	new_term_guard.unlock();
+
 	if (txn != nullptr && (this->kvstore)->GetExclusiveLock(_sub_id, _pre_id, _obj_id, txn) == false)
 	{
 		// conflict
@@ -3745,10 +3760,6 @@ Database::insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num,
 		}
 	}
 
-	// update string index
-	this->stringindex->change(vertices, *this->kvstore, true);
-	this->stringindex->change(predicates, *this->kvstore, false);
-
 	return valid_num;
 }
 
diff --git a/Database/Database.h b/Database/Database.h
index bc6c3e7..85fe4a4 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -140,6 +140,8 @@ private:
 	mutex debug_lock;
 	// for getFinalResult
 	mutex getFinalResult_lock;
+	// looking a term up and giving it an id is one step
+	mutex new_term_lock;
 	// for allocEntityID
 	mutex allocEntityID_lock;
 	// for allocLiteralID
-- 
2.43.0


From c903ef9c7be2b5387cc35579610cf0b3cee44850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:16 +0000
Subject: [PATCH 41/50] fix: numbers of different types lost their fraction or
 could not be compared or added

---
 Query/TempResult.cpp        |  6 ++++++
 Util/EvalMultitypeValue.cpp | 29 ++++++++++++++++-------------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 7e8e6b8..5406666 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -907,6 +907,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
 							   x.datatype == EvalMultitypeValue::xsd_float ||
+							   x.datatype == EvalMultitypeValue::xsd_long ||
 							   x.datatype == EvalMultitypeValue::xsd_double);
 
 		return ret_femv;
@@ -1133,6 +1134,11 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.datatype = EvalMultitypeValue::xsd_float;
 			ret_femv.flt_value = fabs(x.flt_value);
 		}
+		else if (x.datatype == EvalMultitypeValue::xsd_long)
+		{
+			ret_femv.datatype = EvalMultitypeValue::xsd_long;
+			ret_femv.long_value = llabs(x.long_value);
+		}
 		else if (x.datatype == EvalMultitypeValue::xsd_double)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_double;
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 686922c..53c2a30 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -198,8 +198,8 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 		this->dbl_value = this->int_value;
 	else if (this->datatype == xsd_decimal && to_type == xsd_double)
 		this->dbl_value = this->flt_value;
-	else if (this->datatype == xsd_decimal && to_type == xsd_long)
-		this->long_value = this->flt_value;
+	else if (this->datatype == xsd_decimal && to_type == xsd_float)
+		;	// both are kept in flt_value
 	else if (this->datatype == xsd_long && to_type == xsd_double)
 		this->dbl_value = this->long_value;
 	else if (this->datatype == xsd_float && to_type == xsd_double)
@@ -212,6 +212,9 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 void EvalMultitypeValue::getSameNumericType (EvalMultitypeValue &x)
 {
 	DataType to_type = max(this->datatype, x.datatype);
+	// a long next to a decimal or a float: neither type holds both
+	if (to_type == xsd_long && (min(this->datatype, x.datatype) == xsd_decimal || min(this->datatype, x.datatype) == xsd_float))
+		to_type = xsd_double;
 	if (this->datatype != to_type)
 		this->convert2Type(to_type);
 	if (x.datatype != to_type)
@@ -711,8 +714,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+			|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -734,7 +737,7 @@ EvalMultitypeValue
 	else if (datatype == xsd_long)
 	{
 		ret_femv.datatype = xsd_long;
-		ret_femv.flt_value = long_value + x.long_value;
+		ret_femv.long_value = long_value + x.long_value;
 	}
 	else if (datatype == xsd_double)
 	{
@@ -753,7 +756,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double)
+	if (datatype < xsd_integer || datatype > xsd_double)
 		return ret_femv;
 
 	if (datatype == xsd_integer)
@@ -832,8 +835,8 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 	
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-		|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+		|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -874,8 +877,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+			|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -916,8 +919,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+			|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -1155,7 +1158,7 @@ string EvalMultitypeValue::getRep()
 	else if (datatype == EvalMultitypeValue::xsd_integer)
 		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 	else if (datatype == EvalMultitypeValue::xsd_long)
-		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
+		ret = "\"" + to_string(long_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
 	else if (datatype == EvalMultitypeValue::xsd_decimal)
 		ret = "\"" + to_string(flt_value) + "\"^^<http://www.w3.org/2001/XMLSchema#decimal>";
 	else if (datatype == EvalMultitypeValue::xsd_float)
-- 
2.43.0


From 9727073f2ee0a0e68fad917f62bc5c661b95768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 42/50] fix: a number that is malformed or large made every
 expression over it fail the query

---
 Util/EvalMultitypeValue.cpp | 39 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 53c2a30..f31a6d7 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1037,10 +1037,12 @@ void EvalMultitypeValue::deduceTypeValue()
 				datatype = EvalMultitypeValue::xsd_string;
 				str_value = contentStr;
 			} else if (sufStr == "boolean") {
-				if (contentStr == "\"true\"")
+				if (contentStr == "\"true\"" || contentStr == "\"1\"")
 					bool_value = EvalMultitypeValue::EffectiveBooleanValue::true_value;
-				else if (contentStr == "\"false\"")
+				else if (contentStr == "\"false\"" || contentStr == "\"0\"")
 					bool_value = EvalMultitypeValue::EffectiveBooleanValue::false_value;
+				else
+					datatype = EvalMultitypeValue::rdf_term;
 			} else if (sufStr == "dateTime" || sufStr == "date") {
 				datatype = EvalMultitypeValue::xsd_datetime;
 				vector<float> date;
@@ -1072,21 +1074,24 @@ void EvalMultitypeValue::deduceTypeValue()
 				dt_value = EvalMultitypeValue::DateTime(date);
 			} else {
 				contentStr = contentStr.substr(1, contentLen - 2);
-				if (sufStr == "integer") {
-					datatype = EvalMultitypeValue::xsd_integer;
-					int_value = stoi(contentStr);
-				} else if (sufStr == "long") {
-					datatype = EvalMultitypeValue::xsd_long;
-					long_value = stoll(contentStr);
-				} else if (sufStr == "decimal") {
-					datatype = EvalMultitypeValue::xsd_decimal;
-					flt_value = stof(contentStr);
-				} else if (sufStr == "float") {
-					datatype = EvalMultitypeValue::xsd_float;
-					flt_value = stof(contentStr);
-				} else if (sufStr == "double") {
-					datatype = EvalMultitypeValue::xsd_double;
-					dbl_value = stod(contentStr);
+				// a literal that is not of the form its type demands, or of a type not known here, is a term without a value
+				char *end = NULL;
+				datatype = EvalMultitypeValue::rdf_term;
+				if (contentStr.empty() || !(isdigit(contentStr[0]) || (contentStr.size() > 1 && strchr("+-.", contentStr[0]))))
+					return;
+				errno = 0;
+				if (sufStr == "integer" || sufStr == "long") {
+					long_value = strtoll(contentStr.c_str(), &end, 10);
+					if (*end != '\0' || errno == ERANGE)
+						return;
+					int_value = long_value;
+					datatype = (sufStr == "integer" && int_value == long_value) ? EvalMultitypeValue::xsd_integer : EvalMultitypeValue::xsd_long;
+				} else if (sufStr == "decimal" || sufStr == "float" || sufStr == "double") {
+					dbl_value = strtod(contentStr.c_str(), &end);
+					if (*end != '\0')
+						return;
+					flt_value = dbl_value;
+					datatype = sufStr == "decimal" ? EvalMultitypeValue::xsd_decimal : sufStr == "float" ? EvalMultitypeValue::xsd_float : EvalMultitypeValue::xsd_double;
 				}
 			}
 		}
-- 
2.43.0


From af09b9a08afda015984ab9ae51fec72eb41e3861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 43/50] fix: a text with an @ in it counted as language tagged

---
 Query/TempResult.cpp        | 6 +++---
 Util/EvalMultitypeValue.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 5406666..387db80 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -920,7 +920,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
+			int p = x.isSimpleLiteral() ? -1 : x.str_value.rfind('@');	// an @ inside the text is no language tag
 			if (p != -1)
 				ret_femv.str_value = "\"" + x.str_value.substr(p + 1) + "\"";
 			else
@@ -947,7 +947,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
-			size_t p = x.str_value.rfind('@');
+			size_t p = x.isSimpleLiteral() ? string::npos : x.str_value.rfind('@');
 			if (p != string::npos)
 				ret_femv.term_value = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>";
 			else
@@ -1075,7 +1075,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
+			int p = x.isSimpleLiteral() ? -1 : x.str_value.rfind('@');	// an @ inside the text is no language tag
 			if (p != -1)
 			{
 				ret_femv.str_value = x.str_value.substr(0, p);	// ADD lang tag!
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index f31a6d7..eb9c190 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1102,7 +1102,7 @@ string EvalMultitypeValue::getLangTag()
 {
 	if (datatype == EvalMultitypeValue::literal)
 	{
-		int p = str_value.rfind('@');
+		int p = isSimpleLiteral() ? -1 : str_value.rfind('@');
 		if (p != -1)
 			return "\"" + str_value.substr(p + 1) + "\"";
 		else
-- 
2.43.0


From 909226547396029c36446299a8e4f629c12368d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 44/50] fix: STR, LANG, DATATYPE and the type tests were wrong
 for typed literals and for errors

---
 Query/TempResult.cpp | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 387db80..6038f6b 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -867,9 +867,13 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.str_value = "\"" + x.str_value.substr(1, x.str_value.length() - 2) + "\"";
 		else if (x.datatype == EvalMultitypeValue::xsd_string)
 			ret_femv.str_value = x.str_value;
+		else if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		else {
-			x.deduceTermValue();
-			ret_femv.str_value = x.term_value;
+			// the text of a typed literal
+			if (x.term_value.empty())
+				x.deduceTermValue();
+			ret_femv.str_value = x.term_value.substr(0, x.term_value.rfind('"') + 1);
 		}
 		ret_femv.datatype = EvalMultitypeValue::literal;
 		return ret_femv;
@@ -879,6 +883,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::iri);
 
 		return ret_femv;
@@ -888,7 +894,11 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::literal ||
+							   (x.datatype == EvalMultitypeValue::rdf_term && x.term_value[0] == '"') ||
+							   x.datatype == EvalMultitypeValue::xsd_long ||
 							   x.datatype == EvalMultitypeValue::xsd_string ||
 							   x.datatype == EvalMultitypeValue::xsd_boolean ||
 							   x.datatype == EvalMultitypeValue::xsd_integer ||
@@ -904,6 +914,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
 							   x.datatype == EvalMultitypeValue::xsd_float ||
@@ -924,11 +936,16 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			if (p != -1)
 				ret_femv.str_value = "\"" + x.str_value.substr(p + 1) + "\"";
 			else
-				ret_femv.str_value = "";
+				ret_femv.str_value = "\"\"";
 			return ret_femv;
 		}
-		else
-			return ret_femv;
+		else if (x.datatype != EvalMultitypeValue::iri && !(x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2))
+		{
+			// a typed literal has no language
+			ret_femv.datatype = EvalMultitypeValue::literal;
+			ret_femv.str_value = "\"\"";
+		}
+		return ret_femv;
 	}
 	else if (root.oprt == "DATATYPE")
 	{
@@ -937,11 +954,11 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
 		if (x.datatype == EvalMultitypeValue::rdf_term)
 		{
-			size_t p = x.str_value.rfind("^^");
+			size_t p = x.term_value.rfind("^^");
 			if (p != string::npos)
 			{
 				ret_femv.datatype = EvalMultitypeValue::iri;
-				ret_femv.term_value = x.str_value.substr(p + 2);
+				ret_femv.term_value = x.term_value.substr(p + 2);
 			}
 		}
 		else if (x.datatype == EvalMultitypeValue::literal)
@@ -958,6 +975,14 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#string>";
 		}
+		else if (x.term_value.rfind("\"^^<") != string::npos)
+		{
+			// date and dateTime, or a large integer, look alike otherwise
+			ret_femv.datatype = EvalMultitypeValue::iri;
+			ret_femv.term_value = x.term_value.substr(x.term_value.rfind("\"^^<") + 3);
+		}
+		else if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		else if (x.datatype == EvalMultitypeValue::xsd_boolean)
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
-- 
2.43.0


From c2d88f95fa3366d664b44d8e67ea77639898c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 45/50] fix: numbers and strings had no effective boolean
 value, and an error && false was an error

---
 Query/TempResult.cpp        | 14 ++++++--------
 Util/EvalMultitypeValue.cpp | 32 ++++++++++++++++++++------------
 Util/EvalMultitypeValue.h   |  1 +
 3 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 6038f6b..4e89a29 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -754,11 +754,10 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue lRes, rRes;
 		lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (lRes.datatype == EvalMultitypeValue::xsd_boolean) {
-			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() != 1))
+		// the other side cannot change a true || or a false && (but it can change an error)
+		if (lRes.datatype == EvalMultitypeValue::xsd_boolean)
+			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() == 0))
 				return lRes;
-		} else if (root.oprt == "&&")
-			return lRes;
 		rRes = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 
 		if (root.oprt == "||")
@@ -1255,10 +1254,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x, y, z;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if ((x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-			|| x.datatype != EvalMultitypeValue::xsd_boolean)
+		if (x.getEBV().getValue() == 2)
 			return ret_femv;
-		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+		if (x.getEBV().getValue() == 1)
 			ret_femv = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 		else
 			ret_femv = doComp(root.children[2], row, id_cols, kvstore, this_varset);
@@ -1278,7 +1276,7 @@ void TempResult::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &
 
     for (unsigned i = 0; save_num < limit_number && i < original_size-delete_num;) {
         EvalMultitypeValue ret_femv = doComp(filter, this->result[i], this_id_cols, kvstore, this_varset);
-        if (ret_femv.datatype == EvalMultitypeValue::xsd_boolean && ret_femv.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value) {
+        if (ret_femv.getEBV().getValue() == 1) {
             ++i;
             ++save_num;
         } else {
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index eb9c190..562f027 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -186,6 +186,23 @@ bool EvalMultitypeValue::isSimpleLiteral()
 	return false;
 }
 
+EvalMultitypeValue::EffectiveBooleanValue EvalMultitypeValue::getEBV()
+{
+	if (datatype == xsd_boolean)
+		return bool_value;
+	if (datatype == literal || datatype == xsd_string)
+		return EffectiveBooleanValue(str_value.rfind('"') > 1);
+	if (datatype == xsd_integer)
+		return EffectiveBooleanValue(int_value != 0);
+	if (datatype == xsd_long)
+		return EffectiveBooleanValue(long_value != 0);
+	if (datatype == xsd_decimal || datatype == xsd_float)
+		return EffectiveBooleanValue(flt_value != 0 && flt_value == flt_value);
+	if (datatype == xsd_double)
+		return EffectiveBooleanValue(dbl_value != 0 && dbl_value == dbl_value);
+	return EffectiveBooleanValue::error_value;
+}
+
 void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 {
 	if (this->datatype == xsd_integer && to_type == xsd_decimal)
@@ -228,10 +245,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = !this->bool_value;
+	ret_femv.bool_value = !this->getEBV();
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -244,10 +258,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value || x.bool_value);
+	ret_femv.bool_value = (this->getEBV() || x.getEBV());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -260,10 +271,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value && x.bool_value);
+	ret_femv.bool_value = (this->getEBV() && x.getEBV());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
diff --git a/Util/EvalMultitypeValue.h b/Util/EvalMultitypeValue.h
index b940b50..eaaf1ea 100644
--- a/Util/EvalMultitypeValue.h
+++ b/Util/EvalMultitypeValue.h
@@ -82,6 +82,7 @@ class EvalMultitypeValue
 		DateTime dt_value;
 
 		bool isSimpleLiteral();
+		EffectiveBooleanValue getEBV();	// of any value: numbers and strings have one too
 		void convert2Type(EvalMultitypeValue::DataType to_type);
 		void getSameNumericType (EvalMultitypeValue &x);
 		EvalMultitypeValue operator !();
-- 
2.43.0


From 833d5f27feacce671bc617181cff952774ad1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 46/50] fix: BIND wrote false for an error and rewrote the
 numbers it copies

---
 Query/TempResult.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 4e89a29..3875cd3 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1296,7 +1296,13 @@ void TempResult::doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset
 	for (int i = 0; i < (int)this->result.size(); i++)
 	{
 		EvalMultitypeValue ret_femv = doComp(bind.bindExpr, this->result[i], this_id_cols, kvstore, this_varset);
-		this->result[i].str.push_back(ret_femv.getRep());
+		// an error leaves the variable unbound; a term is copied as it is written
+		if (ret_femv.datatype == EvalMultitypeValue::xsd_boolean && ret_femv.bool_value.getValue() == 2)
+			this->result[i].str.push_back("");
+		else if (bind.bindExpr.children.empty() && bind.bindExpr.oprt != "NOW")
+			this->result[i].str.push_back(ret_femv.term_value);
+		else
+			this->result[i].str.push_back(ret_femv.getRep());
 	}
 	return;
 }
-- 
2.43.0


From 75c0a77bd01ad969229a14d26e2d0433c75bffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:45 +0000
Subject: [PATCH 47/50] fix: a - b - c was a - (b - c)

---
 Parser/QueryParser.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index a1e5087..d131bea 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -836,23 +836,20 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 		}
 		else
 		{
-			int rightmostOprtPos = root->children.size() - 2;
-			if (oper_pos < rightmostOprtPos)
-			{
-				// int new_oper_pos = oper_pos + 2;
-				curr_node.oprt = root->children[oper_pos + 2]->getText();
-				curr_node.val = "";
-				// curr_node.lchild = new CompTreeNode;
-				// curr_node.rchild = new CompTreeNode;
-				// buildCompTree(root->children[oper_pos + 1], -1, curr_node.lchild);
-				// buildCompTree(root, oper_pos + 2, curr_node.rchild);
-				curr_node.children.push_back(CompTreeNode());
-				curr_node.children.push_back(CompTreeNode());
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node.children[0]);
-				buildCompTree(root, oper_pos + 2, curr_node.children[1]);
-			}
-			else 	// oper_pos == rightmostOprtPos, the last operator on this level has been handled
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node);
+			// operators of one level associate to the left: the last one is at the root;
+			// oper_pos is the position of the last operator to look at
+			if (oper_pos == -1)
+				oper_pos = root->children.size() - 2;
+			curr_node.oprt = root->children[oper_pos]->getText();
+			refuse(root->children[oper_pos]->children.size() != 0, "A signed number right behind another expression");
+			curr_node.val = "";
+			curr_node.children.push_back(CompTreeNode());
+			curr_node.children.push_back(CompTreeNode());
+			if (oper_pos == 1)
+				buildCompTree(root->children[0], -1, curr_node.children[0]);
+			else
+				buildCompTree(root, oper_pos - 2, curr_node.children[0]);
+			buildCompTree(root->children[oper_pos + 1], -1, curr_node.children[1]);
 		}
 	}
 	else 	// >= 3, even #children, must be NOT IN or function call
-- 
2.43.0


From 1778c22c03a01bf6198c251f472cabff462b2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:53 +0000
Subject: [PATCH 48/50] fix: a cross product of two solution sets overwrote
 rows with the same variables

---
 Query/TempResult.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 3875cd3..df23aab 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -295,12 +295,14 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 	if (common.empty())
 	{
 		// printf("Res size = %d, ", (int)this->result.size() * (int)x.result.size());
-		r.result.resize(this->result.size() * x.result.size());
+		// other joins may have left rows with the same variables already
+		size_t first = r.result.size();
+		r.result.resize(first + this->result.size() * x.result.size());
 		// r.result.assign(this->result.size() * x.result.size(), TempResult::ResultPair(r_str_cols));
 		bool x_larger = x.result.size() > this->result.size();
 		if (r_id_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = first;
 
 			if (x_larger)
 			{
@@ -339,7 +341,7 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 		}
 		if (r_str_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = first;
 			if (x_larger)
 			{
 				for (int i = 0; i < (int)this->result.size(); i++)
-- 
2.43.0


From 2bba07a0e3a028f36579a002f068e3d8c3a36077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:54 +0000
Subject: [PATCH 49/50] fix: a variable unbound in some solutions restricted
 the patterns after it

---
 Query/GeneralEvaluation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 099789a..3ceb586 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3950,6 +3950,7 @@ void GeneralEvaluation::fillCandList(vector<shared_ptr<BGPQuery>>& bgp_query_vec
 			/// For each var in the current BGP ///
 			/// construct result_set: the candidate values of this var from the parent result in rewriting_evaluation_stack ///
 			set<unsigned> result_set;
+			bool unbound = false;	// a solution that does not bind this var is compatible with every value of it
 
 			for (int t = 0; t < (int)last_result->results.size(); t++)
 			{
@@ -3968,11 +3969,13 @@ void GeneralEvaluation::fillCandList(vector<shared_ptr<BGPQuery>>& bgp_query_vec
 						for (int l = 0; l < (int)result.size(); l++)
 							result_set.insert(kvstore->getIDByString(result[l].str[pos]));
 					}
+					else if (!result.empty())
+						unbound = true;
 				}
 			}
 
 			/// If result_set is non-empty, set it as the current var's candidate list ///
-			if (!result_set.empty())
+			if (!unbound && !result_set.empty())
 			{
 				// vector<unsigned> result_vector;
 				IDList result_vector;
-- 
2.43.0


From 7a293cd8d70ce2b33c93d8b3ef3247dfa474fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 50/50] fix: ORDER BY an expression sorted by a variable of it,
 and failed with a LIMIT

---
 Database/Optimizer.cpp      | 21 +++++----------------
 Parser/QueryParser.cpp      |  7 ++++++-
 Query/GeneralEvaluation.cpp | 22 ++++++++++++++++++----
 3 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/Database/Optimizer.cpp b/Database/Optimizer.cpp
index 1e06f9a..aad50de 100644
--- a/Database/Optimizer.cpp
+++ b/Database/Optimizer.cpp
@@ -25,22 +25,11 @@ Optimizer::Optimizer(KVstore *kv_store,
 BasicQueryStrategy Optimizer::ChooseStrategy(const std::shared_ptr<BGPQuery>& bgp_query,QueryInfo *query_info){
 	if (!query_info->limit_)
 		return BasicQueryStrategy::Normal;
-	if(query_info->ordered_by_expressions_->size() == 1) {
-		// TODO: more accurate decision of algebraic expressions that can be processed by topk
-		if ((*query_info->ordered_by_expressions_)[0].comp_tree_root.children.empty())
-			return BasicQueryStrategy::Normal;
-		auto search_plan = make_shared<TopKSearchPlan>(bgp_query, this->kv_store_,
-													   (*query_info->ordered_by_expressions_)[0], nullptr);
-		if (search_plan->SuggestTopK())
-			return BasicQueryStrategy::TopK;
-		else
-			return BasicQueryStrategy::Normal;
-	} else {
-		if (query_info->ordered_by_expressions_->empty())
-			return BasicQueryStrategy::limitK;
-		else
-			return BasicQueryStrategy::Normal;
-	}
+	// TODO: the ranked enumeration (TopK) fails without solutions and knows neither descending order nor
+	// expressions other than sums of distinct variables, so ordered queries take all solutions and sort them
+	if(query_info->ordered_by_expressions_->empty())
+		return BasicQueryStrategy::limitK;
+	return BasicQueryStrategy::Normal;
 }
 
 /**
diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index d131bea..72f5dbc 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1445,7 +1445,12 @@ antlrcpp::Any QueryParser::visitOrderClause(SPARQLParser::OrderClauseContext *ct
 		if (orderCondition->children[0]->children.size() == 0)	// ( 'ASC' | 'DESC' ) brackettedexpression
 			expOrVarCtx = orderCondition->brackettedexpression()->expression();
 		else if (orderCondition->constraint())	// constraint | var
-			expOrVarCtx = orderCondition->constraint()->brackettedexpression()->expression();
+		{
+			if (orderCondition->constraint()->brackettedexpression())
+				expOrVarCtx = orderCondition->constraint()->brackettedexpression()->expression();
+			else
+				expOrVarCtx = orderCondition->constraint();
+		}
 		else
 		{
 			expOrVarCtx = orderCondition->var();
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 3ceb586..9383089 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3509,6 +3509,20 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 			this->temp_result = new_temp_result;
 		}
 
+		// An ORDER BY expression becomes a variable that is bound to its value and not shown
+		Varset order_values;
+		for (auto &order : this->query_tree.getOrderVarVector())
+		{
+			if (order.comp_tree_root.children.empty())
+				continue;
+			GroupPattern::Bind order_value("?:order" + to_string(order_values.getVarsetSize()));
+			order_value.bindExpr = order.comp_tree_root;
+			this->temp_result->doBind(order_value, kvstore, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+			order.comp_tree_root = CompTreeNode();
+			order.comp_tree_root.val = order_value.var;
+			order_values.addVar(order_value.var);
+		}
+
 		//temp_result --> ret_result
 
 		if (this->query_tree.getProjectionModifier() == QueryTree::Modifier_Distinct)
@@ -3530,10 +3544,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 
 		if (this->query_tree.checkProjectionAsterisk() && this->query_tree.getProjectionVarset().empty())
 		{
-			ret_result.setVar(result0.getAllVarset().vars);
-			ret_result_varset = result0.getAllVarset();
-			ret_result.select_var_num = result0.getAllVarset().getVarsetSize();
-			ret_result.true_select_var_num = ret_result.select_var_num;
+			ret_result_varset = (result0.getAllVarset() - order_values) + order_values;
+			ret_result.setVar(ret_result_varset.vars);
+			ret_result.select_var_num = ret_result_varset.getVarsetSize();
+			ret_result.true_select_var_num = ret_result.select_var_num - order_values.getVarsetSize();
 		}
 		else
 		{
-- 
2.43.0

