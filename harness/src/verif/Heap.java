package verif;

import java.io.File;
import java.lang.ref.Reference;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collections;
import java.util.Deque;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.stream.Stream;

/** Counts what the code under test keeps hold of: everything reachable from given objects, its classes' static fields and the current thread's thread-local variables. */
final class Heap {
    private final List<Class<?>> classes = new ArrayList<>();
    private final Map<Class<?>, Field[]> fields = new IdentityHashMap<>();
    private final List<Field> statics = new ArrayList<>();

    Heap() {
        final URLClassLoader own = (URLClassLoader) Heap.class.getClassLoader();
        for (final URL u : own.getURLs()) {
            final Path root = new File(u.getPath()).toPath();
            if (!Files.isDirectory(root.resolve("com"))) {
                continue;
            }
            try (Stream<Path> files = Files.walk(root.resolve("com"))) {
                for (final Path p : files.filter(f -> f.toString().endsWith(".class")).sorted().toList()) {
                    final String name = root.relativize(p).toString();
                    try {
                        classes.add(Class.forName(name.substring(0, name.length() - 6).replace(File.separatorChar, '.'), true, own));
                    } catch (final Throwable e) {
                        // not loadable: it holds nothing
                    }
                }
            } catch (final java.io.IOException e) {
                throw new java.io.UncheckedIOException(e);
            }
        }
        for (final Class<?> c : classes) {
            for (final Field f : c.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive() && open(f)) {
                    statics.add(f);
                }
            }
        }
    }

    private static boolean open(final Field f) {
        try {
            f.setAccessible(true);
            return true;
        } catch (final RuntimeException e) {
            return false;
        }
    }

    private Field[] of(final Class<?> c) {
        return fields.computeIfAbsent(c, k -> {
            final List<Field> l = new ArrayList<>();
            for (Class<?> x = k; x != null && x != Object.class; x = x.getSuperclass()) {
                for (final Field f : x.getDeclaredFields()) {
                    if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive() && !(x == Reference.class) && open(f)) {
                        l.add(f);
                    }
                }
            }
            return l.toArray(new Field[0]);
        });
    }

    /** The number of objects of each class that are kept hold of. */
    Map<String, Integer> count(final Object... from) {
        final Set<Object> seen = Collections.newSetFromMap(new IdentityHashMap<>());
        final Deque<Object> todo = new ArrayDeque<>();
        final Map<String, Integer> out = new TreeMap<>();
        for (final Object x : from) {
            push(x, seen, todo);
        }
        for (final Field f : statics) {
            try {
                push(f.get(null), seen, todo);
            } catch (final IllegalAccessException e) {
                // unreachable for us
            }
        }
        for (final String name : new String[] {"threadLocals", "inheritableThreadLocals"}) {
            try {
                final Field f = Thread.class.getDeclaredField(name);
                if (open(f)) {
                    push(f.get(Thread.currentThread()), seen, todo);
                }
            } catch (final ReflectiveOperationException e) {
                // a JVM without this field
            }
        }
        while (!todo.isEmpty()) {
            final Object x = todo.pop();
            out.merge(x.getClass().getName().replaceAll("/0x.*", ""), 1, Integer::sum);
            if (x instanceof Object[] a) {
                for (final Object y : a) {
                    push(y, seen, todo);
                }
            } else if (!(x instanceof String) && !x.getClass().isArray()) {
                for (final Field f : of(x.getClass())) {
                    try {
                        push(f.get(x), seen, todo);
                    } catch (final IllegalAccessException e) {
                        // unreachable for us
                    }
                }
            }
        }
        return out;
    }

    private static void push(final Object x, final Set<Object> seen, final Deque<Object> todo) {
        if (x == null || x instanceof Class || x instanceof ClassLoader || x instanceof Thread || x instanceof ThreadGroup || x instanceof java.lang.invoke.MethodHandle || x instanceof java.lang.invoke.MethodType
                || x.getClass().getName().startsWith("org.antlr.v4.runtime.") || x.getClass().getName().startsWith("verif")) {
            return;
        }
        final Class<?> a = x.getClass().getComponentType();
        if (a != null && a.getName().startsWith("org.antlr.")) {
            return;
        }
        if (seen.add(x)) {
            todo.push(x);
        }
    }
}
