#!/usr/bin/env python3
"""Behaviour-preserving edits of dsga.hxx: every check has to stay quiet on all of them.
  neutral.py [GROUP ...] [-- Cxx ...]   apply the groups (default: all at once) to a scratch copy, run the repository's tests and the checks."""
import os, re, subprocess, sys, shutil, json
V = "/verif"; HDR = "include/dsga.hxx"; G = {}
def e(group, old, new, count=1): G.setdefault(group, []).append((old, new, count))
# --- loops instead of folds, helpers extracted, statements reordered
e("geom", '''				return ((x[Is] * y[Is]) + ...);
			}(std::make_index_sequence<C>{});
		}

		//
		// 8.5 - geometric''', '''				std::common_type_t<T1, T2> total = x[0] * y[0];
				((Is > 0 ? (void)(total += x[Is] * y[Is]) : (void)0), ...);
				return total;
			}(std::make_index_sequence<C>{});
		}

		//
		// 8.5 - geometric''')
e("geom", '''				return ((x[Is] * y[Is]) + ...);
			}(std::make_index_sequence<C>{});
		}

		template <bool W1, floating_point_scalar T1, typename D1, bool''', '''				return (... + (y[Is] * x[Is]));
			}(std::make_index_sequence<C>{});
		}

		template <bool W1, floating_point_scalar T1, typename D1, bool''')
e("geom", '''			auto len = length(x);
			if (T(0.0) == len)
				return basic_vector<T, C>(std::numeric_limits<T>::quiet_NaN());

			[[likely]] return x / len;''', '''			const T len = cxcm::sqrt(dot(x, x));
			if (len != T(0)) [[likely]]
				return basic_vector<T, C>(x / len);

			return basic_vector<T, C>(std::numeric_limits<T>::quiet_NaN());''')
e("geom", '''			return (dot(nref, i) < T(0)) ? +n : -n;''', '''			const bool facing = dot(i, nref) < T(0);
			if (facing)
				return +n;
			return -n;''')
e("geom", '''			return i - T(2) * dot(n, i) * n;''', '''			const T twice = T(2) * dot(i, n);
			return i - n * twice;''')
e("geom", '''			T k = T(1) - eta * eta * (T(1) - dot(n, i) * dot(n, i));

			if (k < T(0))
				return basic_vector<T, C>(T(0));

			return eta * i - (eta * dot(n, i) + cxcm::sqrt(k)) * n;''', '''			const T cosine = dot(n, i);
			const T k = T(1) - eta * eta * (T(1) - cosine * cosine);

			if (!(k < T(0)))
			{
				const T factor = eta * cosine + cxcm::sqrt(k);
				return eta * i - factor * n;
			}

			return basic_vector<T, C>(T(0));''')
e("geom", '''			return length(p0 - p1);
		}

		template <floating_point_scalar T1, floating''', '''			return length(p1 - p0);
		}

		template <floating_point_scalar T1, floating''')
e("geom", '''			return basic_vector((a[1] * b[2]) - (b[1] * a[2]),
								(a[2] * b[0]) - (b[2] * a[0]),
								(a[0] * b[1]) - (b[0] * a[1]));''', '''			const auto minor = [&](int p, int q) { return (a[p] * b[q]) - (a[q] * b[p]); };
			return basic_vector(minor(1, 2), minor(2, 0), minor(0, 1));''')
e("common", '''			T t = clamp_op((x - edge0) / (edge1 - edge0), T(0), T(1));
			return t * t * (T(3) - T(2) * t);''', '''			const T width = edge1 - edge0;
			const T t = clamp_op((x - edge0) / width, T(0), T(1));
			return (T(3) - T(2) * t) * (t * t);''')
e("common", "return ((x < edge) ? T(0) : T(1));", "if (!(x < edge)) return T(1); return T(0);")
e("common", "return T(T(T(0) < arg) - T(arg < T(0)));", "return arg < T(0) ? T(-1) : T(T(0) < arg ? 1 : 0);")
e("common", "auto value_representation = std::bit_cast<std::array<std::byte, sizeof(T)>>(x);\n			std::ranges::reverse(value_representation);", "auto value_representation = std::bit_cast<std::array<std::byte, sizeof(T)>>(x);\n			for (std::size_t i = 0; i < sizeof(T) / 2; ++i)\n				std::swap(value_representation[i], value_representation[sizeof(T) - 1 - i]);")
e("members", '''			T smallest = (*this)[0];
			for (std::size_t i = 1; i < Count; ++i)
			{
				if ((*this)[i] < smallest)
					smallest = (*this)[i];
			}

			return smallest;''', '''			return *std::min_element(this->cbegin(), this->cend());''')
e("members", '''			T largest = (*this)[0];
			for (std::size_t i = 1; i < Count; ++i)
			{
				if ((*this)[i] > largest)
					largest = (*this)[i];
			}

			return largest;''', '''			std::size_t best = 0;
			for (std::size_t i = Count; i-- > 1;)
				if ((*this)[best] < (*this)[i])
					best = i;

			return (*this)[best];''')
e("members", '''				return ((*this)[Is] + ...);''', '''				T total = (*this)[0];
				((Is > 0 ? (void)(total += (*this)[Is]) : (void)0), ...);
				return total;''')
e("members", '''			constexpr auto max_val = static_cast<int>(Count);
			by %= max_val;

			basic_vector<T, Count> dest{};
			auto pivot = this->begin();
			if (by > 0)
			{
				pivot += by;
			}
			else if (by < 0)
			{
				pivot += (max_val + by);
			}
			std::ranges::rotate_copy(*this, pivot, dest.begin());

			return dest;''', '''			constexpr auto max_val = static_cast<int>(Count);
			const int start = ((by % max_val) + max_val) % max_val;

			basic_vector<T, Count> dest{};
			for (int i = 0; i < max_val; ++i)
				dest[i] = (*this)[(i + start) % max_val];

			return dest;''')
e("members", '''			constexpr auto max_val = static_cast<int>(Count);
			auto copy = basic_vector<T, Count>(*this);
			if (by > 0)
			{
				int count = by > max_val ? max_val : by;
				auto shifted_end = std::shift_left(copy.begin(), copy.end(), count);
				std::ranges::fill_n(shifted_end, count, T(0));
			}
			else if (by < 0)
			{
				int count = by < -max_val ? max_val : -by;
				std::shift_right(copy.begin(), copy.end(), count);
				std::ranges::fill_n(copy.begin(), count, T(0));
			}

			return copy;''', '''			constexpr auto max_val = static_cast<long long>(Count);
			auto copy = basic_vector<T, Count>{};
			for (long long i = 0; i < max_val; ++i)
			{
				const long long from = i + by;
				if (from >= 0 && from < max_val)
					copy[i] = (*this)[from];
			}

			return copy;''')
e("members", '''				return basic_vector<T, Count>{ op((*this)[Is])... };		// braced init list is evaluated in element order''', '''				basic_vector<T, Count> made{};
				((made[Is] = static_cast<T>(op((*this)[Is]))), ...);
				return made;''')
e("members", '''			dsga_constexpr_assert((mapper_index >= begin_index) && (mapper_index < end_index), "index not in range");

			return (*mapper_ptr)[mapper_index];''', '''			dsga_constexpr_assert((mapper_index < end_index) && (mapper_index >= begin_index), "index not in range");

			const auto &source = *mapper_ptr;
			return source[mapper_index];''')
e("members", '''			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");

			mapper_index += offset;
			return *this;''', '''			const std::ptrdiff_t moved = mapper_index + offset;
			dsga_constexpr_assert(!(moved < begin_index || moved > end_index), "offset not in range");

			mapper_index = moved;
			return *this;''', 2)
e("members", "dsga_constexpr_assert(index >= 0 && static_cast<std::size_t>(index) < Count, \"index out of bounds\");\n			return store[", "const bool inside = index >= 0 && static_cast<std::size_t>(index) < Count;\n			dsga_constexpr_assert(inside, \"index out of bounds\");\n			return store[", 2)
e("members", '''			((base[Is] = static_cast<T>(args)), ...);
		}
	};''', '''			const T given[] = { static_cast<T>(args)... };
			std::size_t next = 0;
			((base[Is] = given[next++]), ...);
		}
	};''')
e("members", '''				((store[Js] = static_cast<T>(same_args)),...);
			}(std::make_index_sequence<Count>{}, args...);''', '''				const T given[] = { static_cast<T>(same_args)... };
				for (std::size_t k = Count; k-- > 0;)
					store[k] = given[k];
				((void)Js, ...);
			}(std::make_index_sequence<Count>{}, args...);''')
e("members", "constexpr void swap(storage_wrapper &sw) noexcept requires Writable && Mutable	{ store.swap(sw.store); 	}", "constexpr void swap(storage_wrapper &sw) noexcept requires Writable && Mutable	{ auto held = store; store = sw.store; sw.store = held; }")
e("matrix", '''				((val[Is] = (lhs * rhs[Is])), ...);''', '''				((val[Is] = (rhs[Is] * lhs)), ...);''')
e("matrix", '''			[&] <std::size_t ...Is>(std::index_sequence <Is...>) noexcept
			{
				(([&] <std::size_t ...Js>(std::index_sequence <Js...>, std::size_t row) noexcept
				{
					((val[row][Js] = arg[Js][row]), ...);
				}(std::make_index_sequence<C>{}, Is)), ...);
			}(std::make_index_sequence<R>{});

			return val;''', '''			for (std::size_t col = 0; col < C; ++col)
				for (std::size_t row = 0; row < R; ++row)
					val[row][col] = arg[col][row];

			return val;''')
e("matrix", '''				+ arg[0][0] * arg[1][1]
				- arg[0][1] * arg[1][0]
				;''', '''				- arg[1][0] * arg[0][1]
				+ arg[1][1] * arg[0][0]
				;''')
e("matrix", '''			return
				+ arg[0][0] * arg[1][1] * arg[2][2]
				+ arg[1][0] * arg[2][1] * arg[0][2]
				+ arg[2][0] * arg[0][1] * arg[1][2]
				- arg[2][0] * arg[1][1] * arg[0][2]
				- arg[1][0] * arg[0][1] * arg[2][2]
				- arg[0][0] * arg[2][1] * arg[1][2]
				;''', '''			return
				+ arg[0][0] * (arg[1][1] * arg[2][2] - arg[2][1] * arg[1][2])
				- arg[1][0] * (arg[0][1] * arg[2][2] - arg[2][1] * arg[0][2])
				+ arg[2][0] * (arg[0][1] * arg[1][2] - arg[1][1] * arg[0][2])
				;''')
e("matrix", '''			return basic_matrix<T, 2, 2>{ arg[1][1], -arg[0][1],
										 -arg[1][0],  arg[0][0] } / determinant(arg);''', '''			const T det = determinant(arg);
			return basic_matrix<T, 2, 2>{ arg[1][1] / det, -arg[0][1] / det,
										 -arg[1][0] / det,  arg[0][0] / det };''')
e("matrix", '''			return ((lhs[Is] == rhs[Is]) && ...);
		}(std::make_index_sequence<C>{});
	}''', '''			bool equal = true;
			((equal = equal && (lhs[Is] == rhs[Is])), ...);
			return equal;
		}(std::make_index_sequence<C>{});
	}''')
e("matrix", '''				((square_mat[Is][Is] = vec[Is]), ...);''', '''				((square_mat[C - 1 - Is][C - 1 - Is] = vec[C - 1 - Is]), ...);''')
e("matrix", '''			if (nullptr == input_data)
				throw std::invalid_argument("pointer can't be null");

			[&]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
			{
				(([&]<std::size_t ...Js>(std::index_sequence <Js...>) noexcept
				{
					constexpr std::size_t Col = Is;
					columns[Col].set(static_cast<T>(*(Col * R + Js + input_data))...);
				}(std::make_index_sequence<R>{})), ...);
			}(std::make_index_sequence<C>{});''', '''			if (!input_data)
				throw std::invalid_argument("pointer can't be null");

			for (std::size_t col = 0; col < C; ++col)
				for (std::size_t row = 0; row < R; ++row)
					columns[col][row] = static_cast<T>(*input_data++);''')
e("machinery", '''			if  constexpr (C == 1)
			{
				return op(arg[0]);
			}
			else
			{
				return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
				{
					return basic_vector<unop_return_t<UnOp, T>, C>{ op(arg[Is])... };
				}(std::make_index_sequence<C>{});
			}''', '''			if  constexpr (C == 1)
			{
				return op(arg[0]);
			}
			else
			{
				basic_vector<unop_return_t<UnOp, T>, C> made{};
				for (std::size_t i = 0; i < C; ++i)
					made[i] = op(arg[i]);
				return made;
			}''')
e("machinery", '''			using ArgT = std::common_type_t<T1, T2>;
			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
			{
				lhs.set( op(static_cast<ArgT>(lhs[Is]), static_cast<ArgT>(rhs[Is]))... );
			}(std::make_index_sequence<C>{});''', '''			const auto made = apply_unitype_make(lhs, rhs, op);
			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
			{
				if constexpr (C == 1)
					lhs.set(made);
				else
					lhs.set(made[Is]...);
			}(std::make_index_sequence<C>{});''')
e("machinery", '''				return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
				{
					return basic_vector<binop_return_t<BinOp, ArgT, ArgT>, C>{ op(static_cast<ArgT>(lhs[Is]), static_cast<ArgT>(rhs[Is]))... };
				}(std::make_index_sequence<C>{});''', '''				const auto one = [&](std::size_t i) noexcept
				{
					const ArgT left = static_cast<ArgT>(lhs[i]);
					const ArgT right = static_cast<ArgT>(rhs[i]);
					return op(left, right);
				};
				return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
				{
					return basic_vector<binop_return_t<BinOp, ArgT, ArgT>, C>{ one(Is)... };
				}(std::make_index_sequence<C>{});''')
e("cxcm", '''				return (value < T(0)) ? -value : value;''', '''				if (value < T(0))
					value = -value;
				return value;''')
e("cxcm", '''				const T truncated_value = trunc(value);

				// truncation rounds to zero which is right direction for positive values,
				// but we need to go the other way for negative values.

				// negative non-integral value
				if (truncated_value > value)
					return (truncated_value - T(1.0f));

				// positive or integral value
				return truncated_value;''', '''				const T truncated_value = trunc(value);
				return (truncated_value > value) ? (truncated_value - T(1.0f)) : truncated_value;''')
e("cxcm", '''					else if (value == std::numeric_limits<T>::infinity())
					{
						return value;
					}
					else if (value == -std::numeric_limits<T>::infinity())
					{
						return -std::numeric_limits<T>::quiet_NaN();
					}
					else if (value == T(0))
					{
						return value;
					}
					else if (value < T(0))
					{
						return -std::numeric_limits<T>::quiet_NaN();
					}

					return relaxed::sqrt(value);''', '''					else if (value == std::numeric_limits<T>::infinity() || value == T(0))
					{
						return value;
					}
					else if (value < T(0))
					{
						return -std::numeric_limits<T>::quiet_NaN();
					}

					return relaxed::sqrt(value);''')
e("swizzle", '''			bool indexes_valid = ((static_cast<std::size_t>(Is) < C) && ...);
			dsga_constexpr_assert(indexes_valid, "indexes out of range");

			if (!indexes_valid)
				throw std::out_of_range("swizzle() indexes out of range");

			return basic_vector<T, sizeof...(Args)>{ v[static_cast<std::size_t>(Is)]... };''', '''			const std::size_t wanted[] = { static_cast<std::size_t>(Is)... };
			const bool any_invalid = std::any_of(std::begin(wanted), std::end(wanted), [](std::size_t i) { return !(i < C); });
			dsga_constexpr_assert(!any_invalid, "indexes out of range");

			if (any_invalid)
				throw std::out_of_range("swizzle() indexes out of range");

			return [&]<std::size_t ...Js>(std::index_sequence<Js...>)
			{
				return basic_vector<T, sizeof...(Args)>{ v[wanted[Js]]... };
			}(std::make_index_sequence<sizeof...(Args)>{});''')

# --- operators, iterators, constructors, equality
e("ops", '''			return ((!std::isunordered(first[Is], second[Is]) && (first[Is] == static_cast<T1>(second[Is]))) && ...);
		}(std::make_index_sequence<C>{});''', '''			return !((first[Is] != static_cast<T1>(second[Is])) || ...);
		}(std::make_index_sequence<C>{});''')
e("ops", '''			return ((!std::isunordered(first[Is], second[Is]) && (first[Is] == second[Is])) && ...);
		}(std::make_index_sequence<C>{});''', '''			bool same = true;
			((same = same && (first[Is] == second[Is])), ...);
			return same;
		}(std::make_index_sequence<C>{});''')
e("ops", '''		if constexpr (C1 == C2)
			return machinery::apply_unitype_make(lhs, rhs, plus_op);
		else if constexpr (C1 == 1)
			return machinery::apply_unitype_make(lhs[0], rhs, plus_op);
		else if constexpr (C2 == 1)
			return machinery::apply_unitype_make(lhs, rhs[0], plus_op);''', '''		if constexpr (C1 == 1 && C2 > 1)
			return lhs[0] + rhs;
		else if constexpr (C2 == 1 && C1 > 1)
			return lhs + rhs[0];
		else
			return machinery::apply_unitype_make(lhs, rhs, plus_op);''')
e("ops", '''		machinery::apply_unitype_modify(lhs, rhs[0], minus_op);
		return lhs.as_derived();''', '''		const T2 amount = rhs[0];
		auto &target = lhs.as_derived();
		machinery::apply_unitype_modify(lhs, amount, minus_op);
		return target;''')
e("ops", '''	constexpr inline auto plus_op = [](non_bool_scalar auto lhs, non_bool_scalar auto rhs) noexcept { return lhs + rhs; };''', '''	struct plus_functor { template <non_bool_scalar A, non_bool_scalar B> constexpr auto operator ()(A lhs, B rhs) const noexcept { return rhs + lhs; } };
	constexpr inline plus_functor plus_op{};''')
e("ops", '''			dsga_constexpr_assert(mapper_index < end_index, "don't increment past end_index");

			indexed_vector_const_iterator temp = *this;
			++mapper_index;
			return temp;''', '''			const auto before = *this;
			++*this;
			return before;''')
e("ops", '''			dsga_constexpr_assert(mapper_index < end_index, "don't increment past end_index");

			indexed_view_const_iterator temp = *this;
			++mapper_index;
			return temp;''', '''			indexed_view_const_iterator temp(*this);
			*this += 1;
			return temp;''')
e("ops", '''			dsga_constexpr_assert(mapper_index > begin_index, "don't decrement past begin_index");

			--mapper_index;
			return *this;''', '''			return *this -= 1;''', 2)
e("ops", '''			return ((mapper_ptr == iter.mapper_ptr) && (mapper_index == iter.mapper_index));''', '''			return !(mapper_index != iter.mapper_index || mapper_ptr != iter.mapper_ptr);''', 2)
e("ops", '''			return static_cast<int>(mapper_index) - static_cast<int>(iter.mapper_index);''', '''			return -(static_cast<int>(iter.mapper_index) - static_cast<int>(mapper_index));''', 2)
e("ops", '''			return std::tuple_cat(to_tuple(args)...);
		}''', '''			auto joined = std::tuple_cat(to_tuple(args)...);
			return joined;
		}''')
e("ops", '''				return std::tuple(arg[Js]...);
			}(std::make_index_sequence<C>{});''', '''				return std::make_tuple(arg.begin()[static_cast<int>(Js)]...);
			}(std::make_index_sequence<C>{});''', 2)
e("ops", '''				return basic_vector<T, C>{ columns[Is][row_index]... };
			}(std::make_index_sequence<C>{});''', '''				basic_vector<T, C> gathered{};
				((gathered[Is] = columns[Is].data()[static_cast<std::size_t>(row_index)]), ...);
				return gathered;
			}(std::make_index_sequence<C>{});''')
e("ops", '''			std::copy(v.store, v.store + Size, store);
			return *this;''', '''			if (this != std::addressof(v))
				for (std::size_t i = 0; i < Size; ++i)
					store[i] = v.store[i];
			return *this;''', 2)
e("ops", '''	constexpr void swap(storage_wrapper<true, T, S> &lhs, storage_wrapper<true, T, S> &rhs) noexcept
	{
		lhs.swap(rhs);
	}''', '''	constexpr void swap(storage_wrapper<true, T, S> &lhs, storage_wrapper<true, T, S> &rhs) noexcept
	{
		for (std::size_t i = 0; i < S; ++i)
			std::swap(lhs.store[i], rhs.store[i]);
	}''')
e("ops", '''			// identity swap is no-op
			if (mstore1 == mstore2)
				return;

			// lambda''', '''			if (!(mstore1 != mstore2))
			{
				return;			// nothing to exchange
			}

			// lambda''')

def main():
    a = sys.argv[1:]; props = None
    if "--" in a: props = a[a.index("--") + 1:]; a = a[:a.index("--")]
    groups = a or list(G); w = "/tmp/neutral-" + "-".join(groups)[:40]
    shutil.rmtree(w, ignore_errors=True); subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        p = f"{w}/{HDR}"; t = open(p, newline="").read(); crlf = "\r\n" in t; t = t.replace("\r\n", "\n")
        for g in groups:
            for old, new, n in G[g]:
                k = t.count(old)
                if k < n: print(f"{g}: pattern not found: {old.strip()[:80]!r}"); continue
                t = t.replace(old, new, n)
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        s = f"mount --bind {w} /repo && bash /opt/vp/build.sh >{w}.build 2>&1; echo BUILD $?; bash /opt/vp/test.sh {w}.json >{w}.test 2>&1"
        r = subprocess.run(["unshare", "-m", "bash", "-c", s], stdout=subprocess.PIPE, text=True); print(r.stdout.strip())
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); miss = stable - set(json.load(open(w + ".json")).get("passed", [])) if os.path.exists(w + ".json") else "?"
        print("tests failing:", sorted(miss)[:5] if miss != "?" else miss, flush=True)
        sys.path.insert(0, V); import checks
        for pid in props or sorted(checks.CHECKS):
            p = subprocess.run(["python3", "run.py", pid], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SCRATCH=w + ".scratch"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(pid, "quiet" if p.returncode == 0 else "ALARM rc=%d\n    " % p.returncode + "\n    ".join(x[:220] for x in p.stdout.splitlines()[-12:]), flush=True)
    finally:
        for x in (w, w + ".scratch"): shutil.rmtree(x, ignore_errors=True)
        for x in (".json", ".build", ".test"):
            try: os.remove(w + x)
            except OSError: pass
if __name__ == "__main__": main()
