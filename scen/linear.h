// Linearizability checker for small histories: is there an order of the operations, consistent with `before`,
// in which a sequential reference model accepts every result?
#pragma once
#include <cstdint>
#include <set>
#include <utility>
#include <vector>

namespace linear {
	/// \tparam State copyable, ordered model state; apply(State&, const Op&) -> bool: result possible in this state?
	/// before(a, b): a has to come first. Pending operations (optional(op)) may also be left out.
	template<class State, class Op, class Apply, class Before, class Optional>
	bool check(const State& init, const std::vector<Op>& ops, Apply&& apply, Before&& before, Optional&& optional) {
		const size_t n = ops.size();
		if (n > 60) return true;
		std::vector<uint64_t> preds(n, 0);
		uint64_t must = 0;
		for (size_t i = 0; i < n; i++) {
			if (!optional(ops[i])) must |= uint64_t{1} << i;
			for (size_t j = 0; j < n; j++)
				if (i != j && before(ops[j], ops[i])) preds[i] |= uint64_t{1} << j;
		}
		std::set<std::pair<uint64_t, State>> seen;
		std::vector<std::pair<uint64_t, State>> todo{{0, init}};
		while (!todo.empty()) {
			auto cur = std::move(todo.back());
			todo.pop_back();
			if ((cur.first & must) == must) return true;
			for (size_t i = 0; i < n; i++) {
				const uint64_t bit = uint64_t{1} << i;
				if ((cur.first & bit) || (preds[i] & ~cur.first & must)) continue;
				State s = cur.second;
				if (!apply(s, ops[i])) continue;
				std::pair<uint64_t, State> nxt{cur.first | bit, std::move(s)};
				if (seen.insert(nxt).second) todo.push_back(std::move(nxt));
			}
		}
		return false;
	}
} // namespace linear
