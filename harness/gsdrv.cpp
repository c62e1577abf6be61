// Conformance driver: executes one JSON command per line against the real gStore classes (public API only)
// and answers one JSON line per command on the original stdout. gStore's own chatter goes to drv.log.
#include <random>
#include <algorithm>
#include "Database/Database.h"
#include "Database/Txn_manager.h"
#include "Util/Util.h"
#include "Query/ResultSet.h"
#include <rapidjson/document.h>
#include <rapidjson/writer.h>
#include <rapidjson/stringbuffer.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <thread>
#include <condition_variable>

using namespace std;
typedef rapidjson::Document Doc;
typedef rapidjson::Value Val;
typedef rapidjson::Document::AllocatorType Al;

static FILE *OUT;
static map<string, Database *> dbs;
static map<string, Txn_manager *> tms;

static string S(const Val &c, const char *k, const string &d = "") {
	return c.HasMember(k) && c[k].IsString() ? string(c[k].GetString(), c[k].GetStringLength()) : d;
}
static long long I(const Val &c, const char *k, long long d = 0) {
	return c.HasMember(k) && c[k].IsInt64() ? c[k].GetInt64() : d;
}
static bool B(const Val &c, const char *k, bool d = false) {
	return c.HasMember(k) && c[k].IsBool() ? c[k].GetBool() : d;
}
static Val VS(const string &s, Al &a) { Val v; v.SetString(s.c_str(), s.size(), a); return v; }

static Val VU(const unsigned *l, unsigned n, Al &a) {
	Val v(rapidjson::kArrayType);
	for (unsigned i = 0; i < n; ++i) v.PushBack(Val((unsigned)l[i]), a);
	return v;
}
// ids handed out by the implementation stay below 2^31 for entities and predicates; literal ids start at
// LITERAL_FIRST_ID and are reported as they are (TLC integers are 32 bit: 2e9 + small still fits)

typedef bool (KVstore::*L1)(unsigned, unsigned *&, unsigned &, bool, shared_ptr<Transaction>) const;

static void view(Val &views, Al &a, const char *name, long long k1, long long k2, bool nodup, bool ok, unsigned *l, unsigned n) {
	Val v(rapidjson::kObjectType);
	v.AddMember("v", VS(name, a), a);
	v.AddMember("k1", Val((int64_t)k1), a);
	v.AddMember("k2", Val((int64_t)k2), a);
	v.AddMember("nd", Val(nodup), a);
	if (!ok || !l) n = 0;
	v.AddMember("l", VU(l, n, a), a);
	views.PushBack(v, a);
	if (ok && l) delete[] l;
}

#ifdef PERTURB
// schedule perturbation: in the instrumented build every function entry of gStore comes by here; while a concurrent part runs,
// a few functions chosen by the seed sleep now and then, so that threads meet inside every window sooner or later
static atomic<unsigned> pseed(0), slept(0);
static thread_local unsigned long long prng = 0;
static thread_local int budget = 0;
// one chosen pause: at the stop-th function entry of a request its thread opens a gate and waits until another gate is open
static atomic<int> gate[16];
static thread_local long entered = 0, stop = 0;
static thread_local int opens = 0, waits = 0, hold = 0;
static void wait_gate(int g, int ms) __attribute__((no_instrument_function));
static void wait_gate(int g, int ms) { for (int n = 0; n < ms * 10 && !gate[g & 15].load(); ++n) usleep(100); }
extern "C" void __cyg_profile_func_enter(void *fn, void *) __attribute__((no_instrument_function));
extern "C" void __cyg_profile_func_exit(void *, void *) __attribute__((no_instrument_function));
extern "C" void __cyg_profile_func_exit(void *, void *) {}
extern "C" void __cyg_profile_func_enter(void *fn, void *) {
	if (++entered == stop) { gate[opens & 15] = 1; wait_gate(waits, hold); return; }
	unsigned s = pseed.load(memory_order_relaxed);
	if (!s || budget <= 0) return;
	unsigned long long h = (unsigned long long)((char *)fn - (char *)&pseed) * 0x9E3779B97F4A7C15ull + s * 0xC2B2AE3D27D4EB4Full;
	h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
	if (h % 48) return;
	prng = prng * 6364136223846793005ull + 1442695040888963407ull;
	if ((prng >> 40) % 3) return;
	--budget; ++slept;
	usleep((prng >> 52) % 8 ? (prng >> 45) % 1000 : 5000 + (prng >> 45) % 20000);
}
#endif
static void one(const Val &c, Val &r, Al &a);
static void dump(Database *db, const Val &c, Val &r, Al &a) {
	KVstore *kv = db->getKVstore();
	unsigned le = db->getlimitID_entity(), ll = db->getlimitID_literal();
	int lp = db->getlimitID_predicate();
	unsigned cap = I(c, "cap", 400);
	Val ents(rapidjson::kArrayType), lits(rapidjson::kArrayType), preds(rapidjson::kArrayType), views(rapidjson::kArrayType);
	vector<unsigned> E, L, P;
	for (unsigned i = 0; i < le && i < cap; ++i) {
		string s = kv->getEntityByID(i);
		if (s.empty()) continue;
		Val t(rapidjson::kArrayType);
		t.PushBack(Val(i), a).PushBack(VS(s, a), a).PushBack(Val((int64_t)(int)kv->getIDByEntity(s)), a);
		ents.PushBack(t, a);
		E.push_back(i);
	}
	for (unsigned i = 0; i < ll && i < cap; ++i) {
		unsigned id = Util::LITERAL_FIRST_ID + i;
		string s = kv->getLiteralByID(id);
		if (s.empty()) continue;
		unsigned back = kv->getIDByLiteral(s);
		Val t(rapidjson::kArrayType);
		t.PushBack(Val(id), a).PushBack(VS(s, a), a).PushBack(Val(back == INVALID_ENTITY_LITERAL_ID ? (int64_t)-1 : (int64_t)back), a);
		lits.PushBack(t, a);
		L.push_back(id);
	}
	for (int i = 0; i < lp && i < (int)cap; ++i) {
		string s = kv->getPredicateByID(i);
		if (s.empty()) continue;
		Val t(rapidjson::kArrayType);
		t.PushBack(Val(i), a).PushBack(VS(s, a), a).PushBack(Val((int64_t)(int)kv->getIDByPredicate(s)), a);
		preds.PushBack(t, a);
		P.push_back(i);
	}
	r.AddMember("ents", ents, a);
	r.AddMember("lits", lits, a);
	r.AddMember("preds", preds, a);
	if (B(c, "views", true)) {
		// a sample of the keys is enough for a large database (the dictionary is always complete)
		unsigned smp = I(c, "sample", 0);
		if (smp) {
			mt19937 rng(I(c, "seed", 1));
			for (vector<unsigned> *V : {&E, &L, &P}) {
				if (V->size() <= smp) continue;
				vector<unsigned> k;
				k.push_back(V->front()); k.push_back(V->back());
				while (k.size() < smp) k.push_back((*V)[rng() % V->size()]);
				sort(k.begin(), k.end());
				k.erase(unique(k.begin(), k.end()), k.end());
				*V = k;
			}
		}
		vector<unsigned> O = E;
		O.insert(O.end(), L.begin(), L.end());
		unsigned *l; unsigned n; bool ok;
#define GO(name, k1, k2, nd, call) l = NULL; n = 0; ok = kv->call; view(views, a, name, k1, k2, nd, ok, l, n);
		for (int nd = 0; nd < 2; ++nd) {
			for (unsigned s : E) {
				GO("s2po", s, -1, nd, getpreIDobjIDlistBysubID(s, l, n, nd))
				GO("s2p", s, -1, nd, getpreIDlistBysubID(s, l, n, nd))
				GO("s2o", s, -1, nd, getobjIDlistBysubID(s, l, n, nd))
				for (unsigned p : P) { GO("sp2o", s, p, nd, getobjIDlistBysubIDpreID(s, p, l, n, nd)) }
			}
			for (unsigned o : O) {
				GO("o2ps", o, -1, nd, getpreIDsubIDlistByobjID(o, l, n, nd))
				GO("o2p", o, -1, nd, getpreIDlistByobjID(o, l, n, nd))
				GO("o2s", o, -1, nd, getsubIDlistByobjID(o, l, n, nd))
				for (unsigned p : P) { GO("op2s", o, p, nd, getsubIDlistByobjIDpreID(o, p, l, n, nd)) }
			}
			for (unsigned p : P) {
				GO("p2so", p, -1, nd, getsubIDobjIDlistBypreID(p, l, n, nd))
				GO("p2s", p, -1, nd, getsubIDlistBypreID(p, l, n, nd))
				GO("p2o", p, -1, nd, getobjIDlistBypreID(p, l, n, nd))
			}
			if (E.size() * O.size() <= 2500)
				for (unsigned s : E) for (unsigned o : O) { GO("so2p", s, o, nd, getpreIDlistBysubIDobjID(s, o, l, n, nd)) }
		}
#undef GO
		Val degs(rapidjson::kArrayType);
#define DG(name, k1, k2, call) { Val t(rapidjson::kArrayType); t.PushBack(VS(name, a), a).PushBack(Val((int64_t)k1), a).PushBack(Val((int64_t)k2), a).PushBack(Val((unsigned)kv->call), a); degs.PushBack(t, a); }
		for (unsigned e : E) {
			DG("deg", e, -1, getEntityDegree(e)) DG("in", e, -1, getEntityInDegree(e)) DG("out", e, -1, getEntityOutDegree(e))
			for (unsigned p : P) { DG("sp", e, p, getSubjectPredicateDegree(e, p)) DG("op", e, p, getObjectPredicateDegree(e, p)) }
		}
		for (unsigned e : L) { DG("ldeg", e, -1, getLiteralDegree(e)) for (unsigned p : P) DG("op", e, p, getObjectPredicateDegree(e, p)) }
		for (unsigned p : P) { DG("pdeg", p, -1, getPredicateDegree(p)) }
#undef DG
		r.AddMember("degs", degs, a);
	}
	r.AddMember("views", views, a);
	// full triple list through the subject index, as ids
	Val tr(rapidjson::kArrayType);
	for (unsigned s : E) {
		unsigned *l = NULL; unsigned n = 0;
		if (kv->getpreIDobjIDlistBysubID(s, l, n, false) && l) {
			for (unsigned i = 0; i + 1 < n; i += 2) {
				Val t(rapidjson::kArrayType);
				t.PushBack(Val(s), a).PushBack(Val(l[i]), a).PushBack(Val(l[i + 1]), a);
				tr.PushBack(t, a);
			}
			delete[] l;
		}
	}
	r.AddMember("triples", tr, a);
}

static void one_(const Val &c, Val &r, Al &a) {
	string op = S(c, "op"), dn = S(c, "db", "d");
	if (op == "build") {
		Database *db = new Database(dn);
		bool ok = S(c, "file").empty() ? db->BuildEmptyDB() : db->build(S(c, "file"));
		r.AddMember("ok", Val(ok), a);
		delete db;
	} else if (op == "load") {
		Database *db = new Database(dn);
		bool ok = db->load(B(c, "csr"));
		r.AddMember("ok", Val(ok), a);
		if (ok) dbs[dn] = db; else delete db;
	} else if (op == "unload") {
		if (tms.count(dn)) { delete tms[dn]; tms.erase(dn); }
		if (dbs.count(dn)) { if (B(c, "save", false)) dbs[dn]->save(); delete dbs[dn]; dbs.erase(dn); }
		r.AddMember("ok", Val(true), a);
	} else if (op == "save") {
		r.AddMember("ok", Val(dbs[dn]->save()), a);
	} else if (op == "backup") {
		r.AddMember("ok", Val(dbs[dn]->backup()), a);
	} else if (op == "query") {
		ResultSet rs;
		rs.setUsername("root");
		FILE *nul = fopen("/dev/null", "w");
		int ret = dbs[dn]->query(S(c, "q"), rs, nul, B(c, "upd", true));
		fclose(nul);
		r.AddMember("ret", Val(ret), a);
		if (ret == -100) {
			r.AddMember("n", Val(rs.ansNum), a);
			r.AddMember("json", VS(rs.to_JSON(), a), a);
			if (B(c, "tsv")) r.AddMember("tsv", VS(rs.to_str(), a), a);
		}
	} else if (op == "insert_file") {
		r.AddMember("ret", Val(dbs[dn]->batch_insert(S(c, "file"))), a);
	} else if (op == "remove_file") {
		r.AddMember("ret", Val(dbs[dn]->batch_remove(S(c, "file"))), a);
	} else if (op == "insert_file1") {
		r.AddMember("ret", Val((int)dbs[dn]->insert(S(c, "file"))), a);
	} else if (op == "remove_file1") {
		r.AddMember("ret", Val((int)dbs[dn]->remove(S(c, "file"))), a);
	} else if (op == "info") {
		Database *db = dbs[dn];
		r.AddMember("triples", Val((int64_t)db->getTripleNum()), a);
		r.AddMember("entities", Val((int64_t)db->getEntityNum()), a);
		r.AddMember("literals", Val((int64_t)db->getLiteralNum()), a);
		r.AddMember("subjects", Val((int64_t)db->getSubNum()), a);
		r.AddMember("predicates", Val((int64_t)db->getPreNum()), a);
	} else if (op == "dump") {
		dump(dbs[dn], c, r, a);
	} else if (op == "export") {
		FILE *fp = fopen(S(c, "file").c_str(), "w");
		dbs[dn]->export_db(fp);
		fclose(fp);
		r.AddMember("ok", Val(true), a);
	} else if (op == "tmopen") {
		tms[dn] = new Txn_manager(dbs[dn], dn);
		r.AddMember("ok", Val(true), a);
	} else if (op == "tmclose") {
		delete tms[dn]; tms.erase(dn);
		r.AddMember("ok", Val(true), a);
	} else if (op == "begin") {
		txn_id_t t = tms[dn]->Begin((IsolationLevelType)I(c, "iso", 1));
		r.AddMember("tid", Val((int64_t)t), a);
	} else if (op == "tquery") {
		string res;
		int ret = tms[dn]->Query((txn_id_t)I(c, "tid"), S(c, "q"), res);
		r.AddMember("ret", Val(ret), a);
		r.AddMember("json", VS(res, a), a);
	} else if (op == "commit") {
		r.AddMember("ret", Val(tms[dn]->Commit((txn_id_t)I(c, "tid"))), a);
	} else if (op == "rollback") {
		r.AddMember("ret", Val(tms[dn]->Rollback((txn_id_t)I(c, "tid"))), a);
	} else if (op == "checkpoint") {
		tms[dn]->Checkpoint();
		r.AddMember("ok", Val(true), a);
	} else if (op == "par") {
		// run the command lists of several threads concurrently; every sub-command is stamped with the
		// position of its call and of its return in one global order
		static atomic<int> clock_;
		clock_ = 0;
		const Val &th = c["threads"];
		unsigned n = th.Size();
#ifdef PERTURB
		pseed = I(c, "pseed");
		for (auto &g : gate) g = 0;
#endif
		vector<vector<string>> outs(n);
		vector<thread> ts;
		atomic<unsigned> ready(0);
		for (unsigned i = 0; i < n; ++i) ts.emplace_back([&, i]() {
			ready++;
			while (ready < n) this_thread::yield();
			map<string, long long> vars;
			for (auto &cmd : th[i].GetArray()) {
				Doc cc; cc.CopyFrom(cmd, cc.GetAllocator());
				if (cc.HasMember("tid") && cc["tid"].IsString()) {
					long long v = vars[cc["tid"].GetString()];
					cc["tid"].SetInt64(v);
				}
				Doc d; d.SetObject();
				if (cc.HasMember("tid")) d.AddMember("utid", Val(cc["tid"].GetInt64()), d.GetAllocator());
				int us = I(cc, "us", 0);
#ifdef PERTURB
				budget = 6;
				if (!prng) prng = I(c, "pseed") * 7919 + i * 104729 + 1;
#endif
				if (us) usleep(us);
#ifdef PERTURB
				if (cc.HasMember("wait")) wait_gate(I(cc, "wait"), 3000);
				opens = I(cc, "opens"); waits = I(cc, "waits"); hold = I(cc, "hold", 25);
				entered = 0; stop = I(cc, "stop");
#endif
				int t0 = clock_++;
				one(cc, d, d.GetAllocator());
				int t1 = clock_++;
#ifdef PERTURB
				stop = 0;
				d.AddMember("fn", Val((int64_t)entered), d.GetAllocator());
				if (cc.HasMember("stop")) gate[opens & 15] = 1;
				if (cc.HasMember("done")) gate[I(cc, "done") & 15] = 1;
#endif
				if (S(cc, "op") == "begin" && cc.HasMember("as")) vars[S(cc, "as")] = d["tid"].GetInt64();
				d.AddMember("t0", Val(t0), d.GetAllocator());
				d.AddMember("t1", Val(t1), d.GetAllocator());
				rapidjson::StringBuffer sb; rapidjson::Writer<rapidjson::StringBuffer> w(sb);
				d.Accept(w);
				outs[i].push_back(sb.GetString());
			}
		});
		for (auto &t : ts) t.join();
#ifdef PERTURB
		pseed = 0;
		r.AddMember("slept", Val((unsigned)slept), a);
#endif
		Val arr(rapidjson::kArrayType);
		for (unsigned i = 0; i < n; ++i) {
			Val v(rapidjson::kArrayType);
			for (auto &s : outs[i]) v.PushBack(VS(s, a), a);
			arr.PushBack(v, a);
		}
		r.AddMember("threads", arr, a);
	} else if (op == "kill") {
		_exit(0); // crash: nothing buffered in memory reaches the disk
	} else {
		r.AddMember("unknown", VS(op, a), a);
	}
}

static void one(const Val &c, Val &r, Al &a) {
	try { one_(c, r, a); }
	catch (const std::exception &e) { r.AddMember("exc", VS(e.what(), a), a); }
	catch (const std::string &e) { r.AddMember("exc", VS(e, a), a); }
	catch (const char *e) { r.AddMember("exc", VS(e, a), a); }
	catch (...) { r.AddMember("exc", VS("unknown", a), a); }
}

int main(int argc, char **argv) {
	int fd = dup(1);
	OUT = fdopen(fd, "w");
	int lg = open("drv.log", O_WRONLY | O_CREAT | O_APPEND, 0644);
	dup2(lg, 1);
	dup2(lg, 2);
	Util util;
	string line;
	while (getline(cin, line)) {
		if (line.empty()) continue;
		Doc c;
		c.Parse(line.c_str(), line.size());
		Doc r;
		r.SetObject();
		if (c.HasParseError()) r.AddMember("parse_error", Val(true), r.GetAllocator());
		else one(c, r, r.GetAllocator());
		rapidjson::StringBuffer sb;
		rapidjson::Writer<rapidjson::StringBuffer> w(sb);
		r.Accept(w);
		fputs(sb.GetString(), OUT);
		fputc('\n', OUT);
		fflush(OUT);
	}
	_exit(0);
}
