package verif;

import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** The data of a case: values bound to fresh field names, possibly nested. */
final class World {
    final Source s;
    final Values v;
    private final Map<String, Object> root = new LinkedHashMap<>();
    final Map<String, Object> bound = new LinkedHashMap<>();
    private Map<String, Object> built;
    /** percentage of fields that are nested */
    int nested = 25;
    /** which classes of maps are used: 0 plain HashMap only, 1 any */
    int mapKinds = 1;
    boolean decoys = true;

    World(final Source s) {
        this.s = s;
        this.v = new Values(s);
    }

    static boolean validSegment(final String x, final boolean first) {
        if (x.isEmpty() || x.length() > 200) {
            return false;
        }
        for (int i = 0; i < x.length(); i++) {
            if (!RefParser.fieldChar(x.charAt(i)) || x.charAt(i) == '.') {
                return false;
            }
        }
        return !first || !x.matches("[0-9]+");
    }

    static boolean validName(final String path) {
        final String u = path.toUpperCase(java.util.Locale.ROOT);
        return !RefParser.KEYWORDS.contains(u) && !u.equals("NULL") && !path.matches("[0-9.]+");
    }

    private String segment() {
        return switch (s.weighted(45, 20, 12, 10, 4, 3, 6, 7)) {
            case 7 -> {
                // names as they are customary for one kind of value or another
                final String base = s.of("active", "user", "created", "price", "release", "x", "item", "valid", v.word(2));
                final String cap = Character.toUpperCase(base.charAt(0)) + base.substring(1);
                yield switch (s.draw(4)) {
                    case 0 -> s.of("is", "has", "can", "should", "was", "num", "min", "max", "date", "ts", "raw", "str", "int", "no", "n", "sum", "count", "total") + cap;
                    case 1 -> s.of("is_", "has_", "num_", "date_", "min_", "max_", "is", "num", "b_", "s_", "i_", "no_") + base;
                    case 2 -> base + s.of("Id", "Date", "At", "Time", "Count", "Version", "Flag", "List", "Ids", "s", "Str", "Num", "On", "Ver", "Code", "Amount", "Price", "Enabled", "Size", "Key");
                    default -> base + s.of("_id", "_date", "_at", "_time", "_count", "_version", "_flag", "_list", "_ids", "_ts", "_num", "_str", "_ver", "_on", "_code", "_pct", "_key");
                };
            }
            case 0 -> s.of("a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z");
            case 1 -> s.of("age", "name", "price", "tags", "status", "items", "person", "details", "app_version", "num", "count", "flag", "date");
            case 2 -> s.of("in_stock", "order", "android", "notify", "total", "minimum", "lenx", "true_x", "nullable", "INT_", "Not_", "containsAll", "maxPrice", "to_", "IN1", "orx",
                           "avg_", "modes", "summary", "meaning", "false1", "xAND", "days", "null_", "AndX", "Aa", "BB", "AaAa", "BBBB");
            case 3 -> v.word(1 + s.draw(4)) + s.of("", "1", "_", "_x", "42");
            case 4 -> s.of("1st", "2x", "_", "__", "_1", "1e5", "0x1F", "9_9");
            case 5 -> v.word(s.size(5, 120));
            default -> {
                final String d = Dict.string(s);
                yield validSegment(d, true) ? d : "k";
            }
        };
    }

    /** A fresh path: not bound, not a prefix of a bound one, not below a bound one. */
    String fresh() {
        for (int tries = 0;; tries++) {
            final StringBuilder p = new StringBuilder(segment());
            int depth = 0;
            if (!bound.isEmpty() && s.chance(4)) {
                // a name with the hash code of another one
                final String other = new ArrayList<>(bound.keySet()).get(s.draw(bound.size()));
                final String twin = v.twin(other);
                if (twin != null && twin.indexOf('.') == other.indexOf('.')) {
                    p.setLength(0);
                    p.append(twin);
                }
            } else if (!bound.isEmpty() && s.chance(8)) {
                // a name made from another one
                final String other = s.of(new ArrayList<>(bound.keySet()));
                p.setLength(0);
                p.append(derived(other));
            } else if (s.draw(100) < nested) {
                depth = s.weighted(60, 25, 10, 5);
                depth = depth == 3 ? s.range(3, 8) : depth + 1;
                if (!bound.isEmpty() && s.chance(30)) {
                    // a sibling of something already there
                    final String other = new ArrayList<>(bound.keySet()).get(s.draw(bound.size()));
                    final int dot = other.lastIndexOf('.');
                    if (dot > 0) {
                        p.setLength(0);
                        p.append(other, 0, dot);
                        depth = 1;
                    }
                }
            }
            for (int i = 0; i < depth; i++) {
                final String seg = s.chance(5) ? s.of("0", "1", "AND", "null", "in", "10") : segment();
                p.append('.').append(seg);
            }
            String path = p.toString();
            if (tries > 3) {
                path = path + "_" + tries + bound.size();
            }
            if (validName(path) && path.length() < 900 && segments(path) && free(path)) {
                return path;
            }
        }
    }

    /** A name that looks like another one. */
    String derived(final String other) {
        final int dot = other.lastIndexOf('.');
        final String pre = other.substring(0, dot + 1);
        final String last = other.substring(dot + 1);
        return switch (s.draw(13)) {
            case 0 -> "_" + other;
            case 1 -> other + s.of("_", "_x", "_type", "s", "2", "x", "_default", "_old", "Count");
            case 2 -> other.toUpperCase(java.util.Locale.ROOT);
            case 3 -> other.toLowerCase(java.util.Locale.ROOT);
            case 4 -> s.of("not_", "is_", "get_", "no_", "x", "in_", "null_", "the_", "_") + other;
            case 5 -> pre + s.of("_", "is_", "not_", "x") + last;
            case 6 -> other.replace('.', '_');
            case 7 -> other.substring(other.indexOf('.') + 1);
            case 8 -> last;
            case 9 -> other.startsWith("_") ? other.substring(1) : other.length() > 2 ? other.substring(1) : other + "q";
            case 10 -> other.length() > 2 ? other.substring(0, other.length() - 1) : other + "z";
            case 11 -> new StringBuilder(last).reverse().toString();
            default -> pre + Character.toUpperCase(last.charAt(0)) + last.substring(1);
        };
    }

    private static boolean segments(final String path) {
        final String[] x = path.split("\\.", -1);
        for (int i = 0; i < x.length; i++) {
            if (!validSegment(x[i], i == 0)) {
                return false;
            }
        }
        return true;
    }

    private boolean free(final String path) {
        for (final String b : bound.keySet()) {
            if (b.equals(path) || b.startsWith(path + ".") || path.startsWith(b + ".")) {
                return false;
            }
        }
        for (final String a : absent) {
            if (a.equals(path) || a.startsWith(path + ".") || path.startsWith(a + ".")) {
                return false;
            }
        }
        return true;
    }

    String bind(final Object value) {
        final String path = fresh();
        bind(path, value);
        return path;
    }

    void bind(final String path, final Object value) {
        if (built != null) {
            throw new IllegalStateException("already built");
        }
        bound.put(path, value);
    }

    /** A name that cannot be written in an expression, for a default field, without a value so far. */
    String odd() {
        for (int i = 0;; i++) {
            final String p = s.of("a%b", "%s", "100%", "%d of %n", "my field", "gr\u00f6\u00dfe", "a-b", "a=b", "and", "IN", "a > 5", "$x", "{}", "'q'", "\"q\"", "\u540d\u524d", "\ud83d\ude00", "5", "-1", "true", "a,b", "(a)", "a\tb", " a", "a ", "#", "a/b",
                    "a%.b c", "m x.y z", "1.5", "x:y", "@", "\\", "a\nb", "CONTAINS_ANY", "5 TO 7", "not", "\u0130", "[0]", "a[0]", "*", "len") + (i > 3 ? i + "" : "");
            if (free(p) && !bound.containsKey(p)) {
                absent.add(p);
                return p;
            }
        }
    }

    RNode field(final Object value) {
        return new RNode.Field(bind(value));
    }

    /** A path without a value: absent, null, below an absent or null or non-map value, or different in case. */
    String missing() {
        final List<String> paths = new ArrayList<>(bound.keySet());
        for (int tries = 0; tries < 20; tries++) {
            String p = null;
            switch (paths.isEmpty() ? s.weighted(3, 3) : s.weighted(3, 3, 2, 2, 1, 3)) {
                case 0 -> p = fresh();
                case 1 -> {
                    p = fresh();
                    bound.put(p, null);
                    return p;
                }
                case 2 -> {
                    p = paths.get(s.draw(paths.size())) + "." + s.of("a", "x", "length", "0", "size");
                    if (bound.get(paths.get(0)) instanceof Map) {
                        p = null;
                    }
                }
                case 3 -> {
                    final String o = paths.get(s.draw(paths.size()));
                    p = s.coin() ? o.toUpperCase(java.util.Locale.ROOT) : o.toLowerCase(java.util.Locale.ROOT);
                }
                case 5 -> {
                    p = derived(s.of(paths));
                    if (!segments(p) || !free(p)) {
                        p = null;
                    }
                }
                default -> {
                    final String o = paths.get(s.draw(paths.size()));
                    final int dot = o.lastIndexOf('.');
                    p = dot < 0 ? o + "x" : o.substring(dot + 1);
                }
            }
            if (p != null && validName(p) && validSegment(p.split("\\.")[0], true) && !bound.containsKey(p) && bound.keySet().stream().noneMatch(startsWith(p))) {
                absent.add(p);
                return p;
            }
        }
        final String p = "zz" + bound.size();
        absent.add(p);
        return p;
    }

    private static java.util.function.Predicate<String> startsWith(final String p) {
        return b -> b.startsWith(p + ".");
    }

    private final List<String> absent = new ArrayList<>();

    boolean built() {
        return built != null;
    }

    Map<String, Object> data() {
        if (built == null) {
            build();
        }
        return built;
    }

    @SuppressWarnings("unchecked")
    private void build() {
        for (final Map.Entry<String, Object> e : bound.entrySet()) {
            put(root, e.getKey().split("\\."), e.getValue());
        }
        if (decoys && !bound.isEmpty() && s.chance(40)) {
            for (int i = 1 + s.draw(3); i > 0; i--) {
                final List<String> paths = new ArrayList<>(bound.keySet());
                final String p = paths.get(s.draw(paths.size()));
                final int dot = p.lastIndexOf('.');
                final String decoy = switch (s.draw(4)) {
                    case 0 -> p.toUpperCase(java.util.Locale.ROOT);
                    case 1 -> p.toLowerCase(java.util.Locale.ROOT);
                    case 2 -> p.substring(dot + 1);
                    default -> p + "x";
                };
                if (free(decoy) && absent.stream().noneMatch(a -> a.equals(decoy) || a.startsWith(decoy + ".") || decoy.startsWith(a + "."))) {
                    bound.put(decoy, bound.get(p) instanceof Boolean b ? (Object) !b : v.scalar());
                    put(root, decoy.split("\\."), bound.get(decoy));
                }
            }
            // dotted keys that look like paths that lead nowhere
            for (final String p : absent) {
                if (p.indexOf('.') > 0 && s.chance(30)) {
                    root.putIfAbsent(p, v.scalar());
                }
            }
            // a dotted key next to the nested value it looks like
            for (final String p : new ArrayList<>(bound.keySet())) {
                if (p.indexOf('.') > 0 && s.chance(10)) {
                    root.putIfAbsent(p, v.scalar());
                }
            }
        }
        if (decoys && s.chance(3)) {
            fill(root, s.chance(60) ? s.range(5, 40) : s.range(60, 400));
        }
        built = seal(root);
    }

    /** Many other entries next to those that matter, in the map itself or in one of its inner maps. */
    private void fill(final Map<String, Object> m, final int n) {
        if (s.coin()) {
            for (final Object x : m.values()) {
                if (x instanceof Tree t) {
                    fill(t, n);
                    return;
                }
            }
        }
        for (int i = 0; i < n; i++) {
            m.putIfAbsent("filler_" + i, i % 7 == 0 ? null : i);
        }
    }

    @SuppressWarnings("unchecked")
    private void put(final Map<String, Object> m, final String[] keys, final Object value) {
        Map<String, Object> cur = m;
        for (int i = 0; i < keys.length - 1; i++) {
            cur = (Map<String, Object>) cur.computeIfAbsent(keys[i], k -> new Tree());
        }
        cur.put(keys[keys.length - 1], value);
    }

    /** Marks maps made here, as opposed to maps that are values. */
    private static final class Tree extends LinkedHashMap<String, Object> {
    }

    @SuppressWarnings("unchecked")
    private Map<String, Object> seal(final Map<String, Object> m) {
        final Map<String, Object> out = new LinkedHashMap<>();
        boolean nulls = false;
        for (final Map.Entry<String, Object> e : m.entrySet()) {
            final Object x = e.getValue() instanceof Tree t ? seal(t) : e.getValue();
            nulls |= x == null;
            out.put(e.getKey(), x);
        }
        return switch (mapKinds == 0 ? 0 : s.weighted(4, 2, 2, 1, 1)) {
            case 0 -> new HashMap<>(out);
            case 1 -> out;
            case 2 -> new TreeMap<>(out);
            case 3 -> Collections.unmodifiableMap(out);
            default -> nulls ? out : Map.copyOf(out);
        };
    }

    /** True when the field's name looks like a missing one's ancestor etc.; only for descriptions. */
    String show() {
        return Show.value(data());
    }
}
