"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=list(files),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


I, H, C = "inputs", "histories", "configurations"

p("C01", "String patterns report exactly the left-to-right occurrences",
  "For every input text and pattern string, a string pattern reports exactly the occurrences met by scanning the text from left to right and resuming at the end of each one found, and the text under every reported span equals the pattern (up to letter case when case is ignored). Several strings given to one pattern are reported string by string in the given order. The search ends for every input, and an empty pattern string reports nothing.",
  [I], "every text, every pattern string, case-sensitive or not, one or several strings per pattern",
  "Tests use a few fixed sentences; overlaps (aa in aaa), self-similar patterns, empty patterns and characters whose lower case has another length are an open input space.",
  ["rebulk/utils.py", "rebulk/pattern.py"],
  [("find_all scanning loop", "rebulk/utils.py:find_all"), ("StringPattern span construction", "rebulk/pattern.py:StringPattern._match")],
  ["Rebulk.string(...).matches(text)", "StringPattern.matches(text)"])
p("C02", "Regex patterns mirror every occurrence and capture of the regex engine",
  "Whatever occurrences and groups the regular-expression engine reports, a regex pattern yields one match per non-empty occurrence, in engine order and with its span, holding one child per non-empty participating group in group order. Each child has the group's span, the group's name or else the pattern's name, and the occurrence as parent. With repeated captures enabled every capture of a group gives a child, otherwise only the last one.",
  [I, C], "every sequence of engine results (spans, participating groups, names, repeated captures)",
  "Tests run a dozen concrete expressions; unmatched optional groups, empty groups at offset 0, mixes of named and unnamed groups are combinations no sample covers.",
  ["rebulk/pattern.py"], [("finditer-to-Match translation", "rebulk/pattern.py:RePattern._match"), ("kwargs filtering for parents and children", "rebulk/pattern.py:filter_match_kwargs")],
  ["RePattern.matches(text)", "Match.children"])
p("C03", "Functional patterns turn every supported return shape into matches",
  "Whatever supported result a functional pattern's function returns (nothing, a (start, end) tuple optionally with a value and optionally ending with an options dict, an options dict, or a list or generator of those), one match is produced per returned element, in order, with the returned span and options. Options returned by the function win over those of the pattern, except that a value or a formatter configured on the pattern applies to every match. An element whose span is empty produces nothing.",
  [I], "every return shape, number of elements, spans and options",
  "Tests try some of the shapes with fixed spans; shape dispatch depends on the type of the first element and on falsy values such as index 0.",
  ["rebulk/pattern.py"], [("return shape normalisation", "rebulk/pattern.py:FunctionalPattern._match")],
  ["FunctionalPattern.matches(text)"])
p("C04", "Parent/child emission and privacy follow the pattern flags",
  "For every combination of children, every, private_parent and private_children, a pattern emits the parent unless only children are asked for (private_parent also emits it), and emits the children exactly when children, every or private_children ask for them, parent first and children in order, leaving out matches whose name is in ignore_names. A match is private exactly when the pattern is private, its name is in private_names, it is a parent under private_parent, or a child under private_children. For a chain, the chain match is the parent and the matches of its parts are the children (which stay private if their part is).",
  [C, I], "every flag combination, name assignment, private_names and ignore_names content",
  "There are hundreds of flag/name combinations; the tests exercise about ten.",
  ["rebulk/pattern.py"], [("emission", "rebulk/pattern.py:Pattern._process_matches"), ("privacy", "rebulk/pattern.py:Pattern._process_match_private")],
  ["Pattern.matches(text)", "Match.private"])
p("C05", "A match is emitted only when every consulted validator accepts it",
  "A match is emitted exactly when the validator accepts the parent and each child that the pattern returns (parent and all children whatever is returned when validate_all is set); one rejection discards the parent together with all its children. The validator consulted for a match is the one registered for its name, else the one for its role (parent or children), else the pattern-wide one. Validators are not consulted for matches that are not returned (by the children and every settings) unless validate_all is set. For a chain, the chain match is the parent and the matches of its parts are the children.",
  [C, I], "every validator outcome per match, registration by name, role or default, flags",
  "Validators are user callbacks: the property must hold for every verdict they can give and every registration key, tests fix a handful.",
  ["rebulk/pattern.py", "rebulk/utils.py", "rebulk/loose.py"], [("validator lookup", "rebulk/pattern.py:Pattern._process_match_validator"), ("key precedence", "rebulk/utils.py:get_first_defined")],
  ["Pattern.matches(text)"])
p("C06", "Values and formatters resolve by name, then role, then pattern default",
  "The value of an emitted match is the truthy literal registered on the pattern for its name, else for its role (parent or children), else pattern-wide; without such a literal it is the formatter, chosen by the same precedence, applied to the text under the match's span. A match that is not returned keeps its plain text unless format_all is set. A match never takes the formatter or value registered for another name or role. For a chain, the chain match is the parent and the matches of its parts are the children, which keep the literal or formatter of their part where the chain has none for them.",
  [C, I], "every registration of values and formatters by name, role and default, every literal, every span",
  "The precedence table has three sources times three keys times two roles; tests check a few rows.",
  ["rebulk/pattern.py", "rebulk/match.py"], [("value resolution", "rebulk/pattern.py:Pattern._process_match_value"), ("formatter resolution", "rebulk/pattern.py:Pattern._process_match_formatter"), ("Match.value", "rebulk/match.py:Match.value")],
  ["Match.value", "Match.raw"])
p("C07", "Match processors keep, replace or drop matches as they say",
  "For every answer of a pattern's pre- and post-match processors: None keeps the match, a match replaces it, any other empty answer drops it with its children; a replacement made before validation is the one validated, formatted and emitted, one made after validation is emitted as it is. The post processor receives the complete list of emitted matches and its answer is the pattern's result.",
  [I, C], "every processor answer for every match, with and without validators",
  "Processors are user callbacks whose answers are unbounded; tests use one or two.",
  ["rebulk/pattern.py"], [("processor application", "rebulk/pattern.py:Pattern._process_match_processor"), ("post processing", "rebulk/pattern.py:Pattern._post_process_matches")],
  ["Pattern.matches(text)"])
p("C08", "Chain results are gapless, ordered, within repeat bounds and correctly placed",
  "For every text and every chain of string parts, each chain match covers a stretch of the original text that is the concatenation, in declared part order and without gaps, of its parts, each repeated a number of times within its bounds. Its children are exactly the occurrences of the non-hidden parts in that stretch, at their true positions in the original text, and its own span runs from the first to the last of them. Parts that are regular expressions contribute every match and group their patterns return, each once, at their true positions, groups before the match they belong to. Chain matches of one text follow each other without overlapping.",
  [I, C], "every text, every repeater of every part, hidden or not",
  "Chains re-search suffixes and shift offsets; tests use about a dozen well-formed sentences, while failures need a failed attempt followed by a success.",
  ["rebulk/chain.py"], [("chain loop", "rebulk/chain.py:Chain._match"), ("offset shifting", "rebulk/chain.py:Chain._fix_matches_offset"), ("gap and repeat truncation", "rebulk/chain.py:ChainPart._truncate_repeater"), ("repeat lower bound", "rebulk/chain.py:ChainPart._validate_repeater")],
  ["Rebulk.chain()...close().matches(text)"])
p("C09", "A chain written out in a text is found",
  "For every chain of parts whose texts share no character and whose first part is mandatory, a text made of foreign characters, then the parts in order each repeated a number of times allowed by its repeater, then foreign characters, yields exactly that stretch as one chain match; so do several such stretches, separated by foreign characters or, when the first part has an exact number of repetitions, directly following each other. When every part occurs exactly once and the first one cannot overlap itself, the chain matches are the left-to-right occurrences of the word the parts spell, even if parts share characters. A chain may itself be a part of a chain and is repeated like any other; its matches and their children are then children of the outer match. An exact number, '?', '*', '+' and '{m,n}' repeaters mean the same as in regular expressions.",
  [I, C], "every number of repetitions within the repeater bounds, every padding",
  "Tests show a few repetition counts only.",
  ["rebulk/chain.py", "rebulk/builder.py"], [("chain loop", "rebulk/chain.py:Chain._match"), ("repeater notation", "rebulk/chain.py:ChainPart.repeater")],
  ["Rebulk.chain()...close().matches(text)"])
p("C10", "A rejected chain is shortened to its longest accepted form",
  "When the chain's validator rejects a chain match, the repetitions found by its last part are given up one at a time from the end (possibly all of them), and the longest form the validator accepts is emitted with a span ending with the children left (a repetition is given up with its match and all its groups); when no form is accepted nothing is emitted. A chain breaker that answers true for a candidate repetition keeps that repetition out of the chain match.",
  [I, C], "every verdict of the validator on every shortened form, every number of repetitions",
  "The verdict sequence of a user validator is unbounded; tests fix two.",
  ["rebulk/chain.py"], [("shortening", "rebulk/chain.py:Chain._process_match"), ("chain breaker", "rebulk/chain.py:Chain._chain_breaker_eval")],
  ["Rebulk.chain()...close().matches(text)"])
p("C11", "Splitting a match yields exactly its maximal separator-free runs",
  "For every match and every set of separator characters, split returns the maximal non-empty stretches of the match's text that contain no separator, in order, as new matches at their true positions in the input text, each keeping the original's name, tags, literal value, formatter, flags, solver, index and parent; the original match is left unchanged. A predicate and an index then filter and pick as for any list.",
  [I], "every text, match span, separator set",
  "Runs of separators at either end, adjacent separators and matches not starting at 0 combine freely; tests show two.",
  ["rebulk/match.py"], [("split state machine", "rebulk/match.py:Match.split")], ["Match.split(seps)"])
p("C12", "Cropping a match removes exactly the cropped positions",
  "For every match and every list of spans or matches to crop, the pieces returned by crop are non-empty, pairwise disjoint, lie inside the match and together cover exactly the positions of the match that lie in none of the crops, no two pieces being adjacent unless an empty crop separates them. The original match and the crops are left unchanged.",
  [I], "every match span and every sequence of crop spans, overlapping, nested, touching or empty",
  "The relative positions of several intervals give hundreds of orders; tests show about six.",
  ["rebulk/match.py"], [("interval case analysis", "rebulk/match.py:Match.crop")], ["Match.crop(crops)"])
p("C13", "Match equality, ordering and hashing are consistent",
  "For all matches, equality is an equivalence that holds exactly when span, value, name and parent are equal, inequality is its negation, and <, <=, >, >= agree with the lexicographic order of spans. Equal matches have equal hashes, and changing a match's value, name or tags never changes its hash.",
  [I], "every pair and triple of matches, with or without parents, before and after mutation",
  "Algebraic laws quantify over all pairs and triples; tests compare some fixed pairs.",
  ["rebulk/match.py"], [("rich comparisons", "rebulk/match.py:Match.__eq__/__lt__/..."), ("hash", "rebulk/match.py:Match.__hash__")], ["==, !=, <, <=, >, >=, hash()"])
p("C14", "A match's text, length, names and initiator reflect its span and family",
  "For every match on a non-empty text the raw text is the input text between its raw start and raw end (its start and end unless set), its value is the literal when a non-empty one is set and else the formatter applied to the raw text, its length is end minus start and it is true exactly when non-empty. Its initiator is the root of its chain of parents, its names are its own name or else all names found under its children, and tagged/named answer by membership in those.",
  [I], "every span, raw span, literal, formatter, family tree",
  "Accessors are read after arbitrary user mutation of start/end/raw bounds; tests read a few.",
  ["rebulk/match.py"], [("raw/value/initiator/names accessors", "rebulk/match.py:Match")], ["Match.raw", "Match.value", "Match.initiator", "Match.names"])
p("C15", "Lookups always agree with the current content of the match list",
  "After any sequence of list operations on a match list (append, extend, insert, item and slice assignment, deletion, remove, pop, reverse, clear), every lookup by name, tag, start, end or position returns exactly the matches currently in the list that qualify, in list order, and names, tags and the maximal end describe exactly the current content. Asking for a lookup never changes a later answer. (A match's name, tags and span are not changed in place while it is in the list, rules' consequences apart.)",
  [H], "every history of mutations interleaved with lookups",
  "Lookup tables are built lazily and maintained incrementally, so an error needs a particular interleaving of lookup and mutation; tests do a few single steps.",
  ["rebulk/match.py"], [("lazy dicts", "rebulk/match.py:_BaseMatches._name_dict..."), ("incremental maintenance", "rebulk/match.py:_BaseMatches._add_match/_remove_match")],
  ["Matches.named/tagged/starting/ending/at_index/names/tags/max_end"],
  [("lookup dicts", "cached lookup tables per name, tag, start, end, position", "rebulk/match.py:_BaseMatches")])
p("C16", "Positional queries return exactly the matches at the asked place",
  "For every list of non-empty matches (pairwise different ones for at_span, at_match and conflicting): starting and ending return the matches with that start or end, at_index those covering the position, range those sharing a position with a non-empty range, sorted by span, at_span and at_match those covering the first or the last position of the span, and conflicting every other match sharing at least one position with the given match, each once. Asking changes nothing in the list.",
  [I], "every set of spans, every queried position, span or range",
  "Boundary relations between intervals (touching, nested, equal) multiply; tests check isolated examples.",
  ["rebulk/match.py"], [("index lookups", "rebulk/match.py:_BaseMatches.at_index/at_span/range/conflicting")],
  ["Matches.starting/ending/at_index/at_span/at_match/range/conflicting"])
p("C17", "previous and next return the nearest neighbours on each side",
  "For every list of matches, previous(m) returns exactly the matches ending at the greatest end that is not after m's start, and next(m) exactly the matches starting at the smallest start that is after m's start; both return an empty list when there is none.",
  [I], "every set of spans and every reference match, also one not in the list",
  "Nearest-neighbour search must be right for every gap length and every tie; tests show three.",
  ["rebulk/match.py"], [("neighbour scans", "rebulk/match.py:_BaseMatches.previous/next")], ["Matches.previous/next"])
p("C18", "Holes are exactly the maximal uncovered stretches of the range",
  "For every match list and every range, holes returns, in order, exactly the maximal non-empty stretches of the range (cut at the end of the text) not covered by any match that is not ignored. With separators, every returned hole is a non-empty uncovered stretch inside the range, holes are disjoint and in order, every uncovered position outside them holds a separator, and no hole has a separator after its first character.",
  [I], "every set of spans, every range, every ignore predicate, every text and separator set",
  "Holes depend on how range bounds cut matches and gaps; tests use whole-text ranges mostly.",
  ["rebulk/match.py"], [("hole scan", "rebulk/match.py:_BaseMatches.holes/_hole_start/_hole_end")], ["Matches.holes(...)"])
p("C19", "chain_before and chain_after follow an unbroken run of matches",
  "For every list of pairwise different matches inside the text: walking from a position (or from a match's start or end) backwards or forwards through the given limits, chain_before and chain_after return exactly the matches accepted by the predicate that cover a position reached before the first position that is neither covered by such a match nor a separator character, each once, nearest first.",
  [I], "every set of spans, text, separator set, position, limit and predicate",
  "Whether the run is broken depends on every character between matches; tests show a few sentences.",
  ["rebulk/match.py"], [("run walk", "rebulk/match.py:_BaseMatches.chain_before/chain_after")], ["Matches.chain_before/chain_after"])
p("C20", "to_dict groups values by name without loss, duplication or side effects",
  "For every match list, to_dict maps each name present to the value of its only distinct value, or to the list of distinct values in span order when there are several (only the first one with first_value, always a list with enforce_list), details giving matches instead of values. Its matches attribute lists every match by name in span order and, without enforce_list, values_list the distinct values. Converting never changes the matches or their values.",
  [I, C], "every assignment of names, values and spans, every flag",
  "Grouping and de-duplication depend on equality patterns among values and on order; tests use two or three values.",
  ["rebulk/match.py"], [("grouping loop", "rebulk/match.py:_BaseMatches.to_dict")], ["Matches.to_dict(...)"])
p("C21", "Typed retrieval returns the values of the matches bearing the name",
  "For every match list, matches[key] is the value of the first match in list order named as the key (None if none), matches.all(key) the values of all of them in list order, and matches.to(model) fills every model field from the matches of that name (all values for a list field, the first one otherwise, left to its default or omitted when there is none). A list model gives all values in order and a plain type the first one, or a lookup error when there is none; a field whose type is unrelated to a declared key of the same name is refused.",
  [I, C], "every assignment of names and values, every model of the supported kinds, declared keys",
  "Correspondence between names, order and field kinds is a product space; tests use fixed samples.",
  ["rebulk/match.py", "rebulk/key.py"], [("typed access", "rebulk/match.py:_BaseMatches.__getitem__/all/to"), ("type cross-check", "rebulk/match.py:_contradicts")], ["Matches[key]", "Matches.all", "Matches.to"])
p("C22", "The declared-key contract check fires exactly on ill-typed values",
  "With the contract check enabled, matching raises a type error exactly when some match (marker excluded) produced by the patterns bears the name of a declared key, is neither private nor carrying a literal value, and has a value that is neither None nor an instance of the declared type. With the check disabled it never raises for that reason, and enabling it never changes the result.",
  [I, C], "every set of matches with names, privacy, literals and value types",
  "Exemptions combine per match; one offending match may hide anywhere among well-typed ones.",
  ["rebulk/match.py", "rebulk/rebulk.py", "rebulk/debug.py"], [("check", "rebulk/match.py:_BaseMatches.check_declared_keys"), ("call site before rules", "rebulk/rebulk.py:Rebulk.matches")], ["Rebulk.matches"])
p("C23", "Predicate and index select from the same result for every query",
  "For every query method of a match list (chain_before and chain_after apart, whose predicate steers the walk), passing a predicate keeps exactly the matches of the plain result that satisfy it, in the same order, and passing an index (directly or in place of the predicate) then returns that element of the kept list, counting negative indices from the end, or None when out of bounds. The returned lists are independent of the match list: altering them never alters it.",
  [I, C], "every query, predicate verdict per match, index value",
  "Each of a dozen queries takes predicate and index; tests cover few pairs and no out-of-range cases.",
  ["rebulk/loose.py", "rebulk/match.py"], [("filter_index", "rebulk/loose.py:filter_index")], ["all Matches queries"])
p("C24", "Overlaps are resolved in favour of the longer match",
  "After default processing of any set of non-private matches without custom solvers, no two remaining matches overlap unless their lengths (of their topmost parents) are equal; a match is removed only if it overlapped a longer one, so a longest match and any match overlapping no longer one always stay. Private matches neither remove nor are removed.",
  [I], "every set of spans, parents and privacy flags, every processing order",
  "Resolution is pairwise over an unordered set; chains of overlaps where a remover is itself removed need specific triples.",
  ["rebulk/processors.py", "rebulk/rules.py"], [("ConflictSolver.when", "rebulk/processors.py:ConflictSolver.when"), ("default solver", "rebulk/processors.py:_default_conflict_solver"), ("removal", "rebulk/rules.py:RemoveMatch.then")], ["Rebulk.matches", "ConflictSolver.when"])
p("C25", "Custom conflict solvers decide their conflicts",
  "For two overlapping public matches of which one has a custom conflict solver, the match the solver returns is removed and the other stays, None keeps both, and the default marker falls back to the other match's solver and finally to the longer-wins rule; the solver is called with its own match first and the conflicting match second.",
  [I, C], "every answer of every solver, every overlap, either or both matches having solvers",
  "The answer protocol has several outcomes per solver and direction; tests cover two.",
  ["rebulk/processors.py"], [("solver order", "rebulk/processors.py:ConflictSolver.when")], ["Rebulk.matches"])
p("C26", "Results contain exactly the surviving public matches; markers stay apart",
  "For every set of matches produced by the patterns, the final result contains no private match and no marker, markers are all found in the separate markers list in order, and absent any conflict every other produced match is in the result in pattern order. Markers never cause or suffer conflict removal, and a list refuses to take (add, insert or assign) a match of the wrong kind, leaving its content unchanged.",
  [I, C], "every combination of marker and private flags and overlaps",
  "Flag and overlap combinations; tests show single examples.",
  ["rebulk/rebulk.py", "rebulk/processors.py", "rebulk/match.py"], [("dispatch", "rebulk/rebulk.py:Rebulk._matches_patterns"), ("PrivateRemover", "rebulk/processors.py:PrivateRemover"), ("marker guards", "rebulk/match.py:Matches/Markers._add_match")], ["Rebulk.matches", "Matches.markers"])
p("C27", "Rules run once each, by priority, then dependency, then registration",
  "For every set of rules, each enabled rule's condition is evaluated exactly once, in decreasing priority; among equal priorities a rule comes after the rules it depends on, and otherwise rules keep registration order within a dependency level. A rule's consequence runs right after its condition, exactly when the condition's answer is truthy, with that answer. Disabled rules are never evaluated; two rules of one class at one priority and cyclic dependencies are refused with an error.",
  [C], "every assignment of priorities, dependencies, enablement and condition answers",
  "Orderings of n rules under two keys and a partial order; tests use three rules.",
  ["rebulk/rules.py", "rebulk/toposort.py"], [("execute_all_rules", "rebulk/rules.py:Rules.execute_all_rules"), ("toposort_rules", "rebulk/rules.py:toposort_rules")], ["Rules.execute_all_rules", "Rebulk.matches"])
p("C28", "Topological sort yields each item once after its dependencies or reports a cycle",
  "For every dependency graph, the topological sort yields each item (including those only mentioned as dependencies) exactly once, in the earliest level after all its dependencies, ignoring self-dependencies, and raises the cyclic-dependency error exactly when the graph has a longer cycle, naming the items left. The graph given by the caller is left unchanged.",
  [I], "every directed graph up to the bound",
  "Graphs with cycles reachable only from acyclic prefixes are rare among samples; tests use fixed graphs.",
  ["rebulk/toposort.py"], [("Kahn levels", "rebulk/toposort.py:toposort")], ["toposort", "toposort_flatten"])
p("C29", "Rule consequences change exactly the matches they are given",
  "For every list of pairwise different matches and every when-response (a match or an iterable of matches, present or not), RemoveMatch removes exactly the given matches that are present, AppendMatch adds exactly the absent ones in the order given, RenameMatch, AppendTags and RemoveTags change the name or tags of exactly the given present matches (moving them to the end of the list, in the order given) and of nothing else, including other matches of the same pattern and the pattern itself. Lookups by name and tag reflect the change immediately; a list of consequences applies each one to the corresponding element of the response.",
  [I, H], "every content, every response shape and subset, every tag and name layout",
  "Effects must not leak to matches sharing objects; tests look only at the touched match.",
  ["rebulk/rules.py", "rebulk/match.py"], [("consequences", "rebulk/rules.py:RemoveMatch/AppendMatch/RenameMatch/AppendTags/RemoveTags")], ["Rebulk.matches", "Consequence.then"])
p("C30", "Pattern options resolve explicit, then kind defaults, then global defaults",
  "For every pattern built through a builder, a chain builder or a part of a chain, each option takes the explicit value if given, else the default for its kind (regex, string, functional, chain), else the global default, lists being concatenated and dicts merged in favour of the more specific; explicit options named in overrides keep the explicit value alone. A chain builder starts with the defaults its parent had when the chain was opened, the very same objects, and is independent of it afterwards. Successive calls of a defaults method accumulate, the latest value given for an option replacing its earlier ones at that level. Setting defaults or building patterns never alters patterns already built, other builders, or objects passed in by the caller.",
  [C, H], "every presence combination and value of options at the three levels, every order of calls",
  "Three levels times four kinds times scalar/list/dict; aliasing errors only appear in a later call.",
  ["rebulk/builder.py", "rebulk/loose.py"], [("set_defaults", "rebulk/loose.py:set_defaults"), ("builders", "rebulk/builder.py:PatternFactory")], ["Rebulk.defaults/regex_defaults/...", "built patterns"])
p("C31", "Keys wire names and converters without overriding explicit options",
  "A single key given to a builder method names the match and sets its converter unless a name or formatter is given explicitly; a sequence of keys and keys declared on the builder register each key's converter for the match name of the key, explicit per-name formatters winning and a pattern-wide explicit formatter disabling inheritance of declared keys. No dict given by the caller is modified, and only patterns built after the declaration, by that builder or a chain builder opened from it after it, inherit it.",
  [C, H], "every presence combination of key, keys, declared keys, defaults and explicit formatters",
  "Sources of formatters combine; tests check pairs.",
  ["rebulk/builder.py", "rebulk/key.py"], [("_apply_key", "rebulk/builder.py:_apply_key"), ("_inherit_keys", "rebulk/builder.py:PatternFactory._inherit_keys")], ["Match.value", "Match.name"])
p("C32", "Disabled parts contribute nothing and enabled parts contribute everything",
  "For every context, a disabled pattern yields no match, a disabled (direct) child rebulk contributes no pattern, rule or declared key, and a disabled rebulk yields nothing at all, while every enabled pattern, rule and key of the rebulk and of its enabled children takes effect exactly once (also when a child is added twice), the parent's first and in registration order. Disabling, by flag or by function of the context, is evaluated with the context given to the call.",
  [C], "every enablement assignment over rebulks, children, patterns",
  "Subsets of enabled parts; tests disable one at a time.",
  ["rebulk/rebulk.py"], [("effective_patterns/rules/keys", "rebulk/rebulk.py:Rebulk.effective_*"), ("gates", "rebulk/rebulk.py:Rebulk._matches_patterns/_execute_rules")], ["Rebulk.matches", "Rebulk.effective_patterns"])
p("C33", "check_keys names exactly the declared keys no pattern can produce",
  "For every set of declared keys and patterns of a rebulk and its direct children, check_keys returns, sorted, exactly the declared names that are neither the name of a pattern, nor a group name of a regex pattern, nor declared in a pattern's properties, nor produced so by a part of a chain at any depth, nor allowed by the caller; enablement does not matter.",
  [C], "every distribution of names over keys, patterns, groups, properties, chain parts, children, allowed names",
  "Set arithmetic over many sources; tests use one source at a time.",
  ["rebulk/rebulk.py"], [("check_keys", "rebulk/rebulk.py:Rebulk.check_keys"), ("_producible_names", "rebulk/rebulk.py:_producible_names")], ["Rebulk.check_keys"])
p("C34", "Introspection reports the names and values patterns and rules declare",
  "For every rebulk and context, introspection covers exactly the non-private, non-marker patterns and all the rules of the rebulk and of its direct children enabled in that context: for each, its declared properties if any, else its literal values, else the strings of a string pattern, else None for the non-private name and (unless children are private) group names of a regex or functional pattern; the overall report merges them by name without duplicates.",
  [C], "every mix of declared properties, values, names, groups and privacy",
  "Source precedence per pattern kind; tests show one of each.",
  ["rebulk/introspector.py", "rebulk/rebulk.py"], [("PatternDescription", "rebulk/introspector.py:PatternDescription"), ("Introspection", "rebulk/introspector.py:Introspection")], ["introspect(rebulk, context).properties"])
p("C35", "Callbacks receive exactly the arguments their signature accepts",
  "A function called through the loose call helper gets the positional arguments it can take, in order, and exactly the keyword arguments it names, keyword-only ones included (all of them if it takes arbitrary keywords), except those its positional arguments already fill, whatever extra arguments are offered, so that surplus arguments never raise and are never misplaced; a class is called likewise with respect to its constructor, a method or callable object with respect to the parameters after the first. (Callables with a readable Python signature.) The value returned is the function's.",
  [C, I], "every signature shape and offered argument set",
  "Signature shapes times offered arguments; tests check a handful.",
  ["rebulk/loose.py"], [("argspec_args", "rebulk/loose.py:argspec_args"), ("call", "rebulk/loose.py:call")], ["call", "functional pattern callbacks"])
p("C36", "Bundled validators and formatters compute what their names say",
  "chars_before, chars_after and chars_surround accept a match exactly when the adjacent character on that side (on both sides) is among the given characters or the match touches that end of the text; a composed validator accepts exactly when all its members do, asking them in order and none after the first refusal, and a composed formatter applies its members left to right.",
  [I], "every text, span and character set, every member verdict",
  "Boundary positions and characters; tests check two sentences.",
  ["rebulk/validators.py", "rebulk/formatters.py"], [("chars_*", "rebulk/validators.py"), ("formatters", "rebulk/formatters.py")], ["rebulk.validators", "rebulk.formatters"])
p("C37", "Matching is repeatable: earlier calls never influence later ones",
  "For every configuration and pair of texts, matching a text gives the same result whether or not other texts were matched before with the same objects, including when rules rename, tag, crop, revalue or remove matches in place; nothing set on a returned match shows in later results or in the patterns. The caller's context and configuration objects are left unchanged.",
  [H, I], "every pair of inputs and every mutation of returned matches",
  "Leaks through shared lists and dicts only appear in a later call, which tests rarely make.",
  ["rebulk/rebulk.py", "rebulk/pattern.py", "rebulk/match.py"], [("per-call Matches", "rebulk/rebulk.py:Rebulk.matches"), ("per-match kwargs", "rebulk/pattern.py")], ["Rebulk.matches"])

p("C38", "Rules are loaded exactly as given",
  "For every sequence of rule instances, rule classes and modules given to Rebulk.rules or Rules, over one or several calls, the rule list holds, in the order given, each instance itself, one new instance of each class, and for each module one new instance of each concrete rule class defined in it, by name. Functions, constants, imported rules, other classes and abstract rules of a module contribute nothing and are not called. The two built-in rules are present unless default_rules is False, and every loaded rule takes part in the run.",
  [C], "every sequence of instances, classes and modules, every mix of members in a module",
  "The tests load one module of rules and two classes; mixes of forms, helpers and imported names in a module are open-ended.",
  ["rebulk/rules.py", "rebulk/rebulk.py"], [("loading", "rebulk/rules.py:Rules.load"), ("module members", "rebulk/rules.py:Rules.load_module"), ("built-in rules", "rebulk/rebulk.py:Rebulk.__init__")],
  ["Rebulk.rules", "Rules", "Rebulk.effective_rules"])
p("C39", "An expression means the same in every form; abbreviations are literal",
  "An expression given to a regex pattern as text (with flags as an option), as a (text, flags) sequence, as a dict of pattern and flags, or compiled finds the same. Abbreviations are literal text replacements applied one after the other in the given order, at every occurrence, to expressions given as text or dict (whichever level of options or defaults they come from), and never to sequences or compiled expressions. What the caller gave is left unchanged.",
  [I, C], "every expression text, form, flags, list of abbreviations",
  "Tests try one abbreviation on one expression; replacements whose result holds another abbreviation, special characters in them and repeated use only show on particular texts.",
  ["rebulk/pattern.py"], [("forms and abbreviations", "rebulk/pattern.py:RePattern.__init__")],
  ["Rebulk.regex(...).matches(text)", "RePattern.patterns"])
p("C40", "Debug mode and log levels never change results",
  "For every configuration, turning debug mode on or off, any default log level, any log level given to patterns or rules (as argument, class or instance attribute, 0 included), and any handler listening give the same matches, markers, rule order and responses, and no error. In debug mode every pattern, match, child and rule tells in defined_at (and its printed form) the file and line outside rebulk that defined it, its pattern's for matches; otherwise defined_at is None.",
  [C, I], "every combination of debug mode, levels, listening handlers and matched spans",
  "The tests build three objects in debug mode; log statements run on every path of matching and rule execution.",
  ["rebulk/debug.py", "rebulk/rules.py", "rebulk/rebulk.py", "rebulk/pattern.py"], [("definition place", "rebulk/debug.py:defined_at"), ("log level of rules", "rebulk/rules.py:CustomRule.__init__"), ("messages", "rebulk/rebulk.py:Rebulk._matches_patterns")],
  ["Rebulk.matches", "Pattern.defined_at", "Match.defined_at"])
p("C41", "A pattern's attributes reach every match it produces",
  "Every match and child produced by a pattern carries the pattern's tags (as a list of its own, in order), marker flag, conflict solver, privacy, searched text and the pattern itself; the match carries the pattern's name, a child the name of its group or else the pattern's. The match of a chain carries the attributes of the chain, and its children those of the part that found them, with the chain match as initiator. Options returned by a functional pattern win for that match only. A match is reported among the markers, rather than among the matches, exactly when its own marker flag is set. Changing the tags of one match changes no other match and no option.",
  [C, I], "every combination of name, tags, marker, conflict solver and privacy, every span, every kind of pattern",
  "Tests check the name or one tag of a match; attributes of children, chains and shared lists are not looked at.",
  ["rebulk/pattern.py", "rebulk/chain.py", "rebulk/match.py"], [("options of matches", "rebulk/pattern.py:filter_match_kwargs"), ("chain match", "rebulk/chain.py:Chain._build_chain_match"), ("own tags", "rebulk/match.py:Match.__init__")],
  ["Match.name", "Match.tags", "Match.marker", "Match.pattern"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
