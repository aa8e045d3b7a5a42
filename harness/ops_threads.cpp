// Several threads over one election: each runs its own list of operations.  The events of the
// threads follow the event of the whole, thread by thread.
#include "ballot.hpp"
#include <atomic>
#include <electionguard/precompute_buffers.hpp>
#include <thread>
using namespace electionguard;

OP(t_fill) // precompute, possibly until told to stop
{
    PrecomputeBufferContext::populate(*theElection(c).context->getElGamalPublicKey());
    return {{"n", PrecomputeBufferContext::get_current_queue_size()}};
}
OP(t_stop)
{
    PrecomputeBufferContext::stop_populate();
    return {{"n", PrecomputeBufferContext::get_current_queue_size()}};
}
OP(t_init)
{
    PrecomputeBufferContext::init(a.at("size").get<uint32_t>());
    return {{"n", PrecomputeBufferContext::get_max_queue_size()}};
}
// what every thread may read of the shared objects
OP(t_read)
{
    auto &e = theElection(c);
    string fmt = a.at("fmt");
    json r;
    r["mh"] = hexQ(*e.internal->getManifestHash());
    r["mh2"] = hexQ(*e.manifest->crypto_hash());
    r["pk"] = e.context->getElGamalPublicKey()->toHex();
    r["xb"] = e.context->getCryptoExtendedBaseHash()->toHex();
    if (fmt == "json") r["back"] = hexQ(*InternalManifest::fromJson(e.internal->toJson())->getManifestHash());
    else if (fmt == "bson")
        r["back"] = hexQ(*Manifest::fromBson(e.manifest->toBson())->crypto_hash());
    else
        r["back"] = hexQ(*CiphertextElectionContext::fromJson(e.context->toJson())->getManifestHash());
    return r;
}
OP(b_threads)
{
    auto &lists = a.at("threads");
    size_t n = lists.size();
    vector<Ctx> own(n, c); // own registers, shared objects
    vector<json> out(n, json::array());
    std::atomic<size_t> ready{0};
    vector<std::thread> th;
    for (size_t i = 0; i < n; i++)
        th.emplace_back([&, i] {
            ready++;
            while (ready < n) std::this_thread::yield();
            for (auto &op : lists[i]) {
                json ev = op;
                ev["r"] = guarded([&] { return ops().at(op.at("op").get<string>())(op, own[i]); });
                out[i].push_back(std::move(ev));
            }
        });
    for (auto &x : th) x.join();
    json all = json::array();
    for (size_t i = 0; i < n; i++) {
        for (auto &kv : own[i].slots) c.slots[kv.first] = kv.second;
        for (auto &ev : out[i]) all.push_back(std::move(ev));
    }
    return {{"_expand", all}};
}
