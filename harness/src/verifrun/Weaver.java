package verifrun;

import java.io.IOException;
import java.io.InputStream;
import java.net.URL;
import java.net.URLClassLoader;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import java.util.function.BiFunction;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Handle;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/** Loads the code under test with a scheduling point (see Turns) at the start of every method and before every field access and call in it. Class initialisers run without points. */
public final class Weaver implements BiFunction<URL[], ClassLoader, URLClassLoader> {
    private static final String LIBRARY = "com.github.sidhant92.";
    private static final Map<String, byte[]> DONE = new ConcurrentHashMap<>();

    @Override
    public URLClassLoader apply(final URL[] urls, final ClassLoader parent) {
        return new Loader(urls, parent);
    }

    private static final class Loader extends URLClassLoader {
        static {
            registerAsParallelCapable();
        }

        Loader(final URL[] urls, final ClassLoader parent) {
            super(urls, parent);
        }

        @Override
        protected Class<?> findClass(final String name) throws ClassNotFoundException {
            // the generated lexer and parser are left alone: they are many, and ANTLR's
            if (!name.startsWith(LIBRARY) || name.contains(".BooleanExpressionLexer") || name.contains(".BooleanExpressionParser")) {
                return super.findClass(name);
            }
            final URL at = findResource(name.replace('.', '/') + ".class");
            if (at == null) {
                throw new ClassNotFoundException(name);
            }
            final byte[] b = DONE.computeIfAbsent(at.toString(), k -> {
                try (InputStream in = at.openStream()) {
                    return weave(in.readAllBytes());
                } catch (final IOException e) {
                    throw new java.io.UncheckedIOException(e);
                }
            });
            return defineClass(name, b, 0, b.length);
        }
    }

    private static byte[] weave(final byte[] in) {
        final ClassWriter out = new ClassWriter(0);
        new ClassReader(in).accept(new ClassVisitor(Opcodes.ASM9, out) {
            @Override
            public MethodVisitor visitMethod(final int access, final String name, final String descriptor, final String signature, final String[] exceptions) {
                final MethodVisitor m = super.visitMethod(access, name, descriptor, signature, exceptions);
                return name.equals("<clinit>") ? new Initialiser(m) : new Points(m);
            }
        }, 0);
        return out.toByteArray();
    }

    private static final class Points extends MethodVisitor {
        Points(final MethodVisitor m) {
            super(Opcodes.ASM9, m);
        }

        private void point() {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "verifrun/Turns", "point", "()V", false);
        }

        @Override
        public void visitCode() {
            super.visitCode();
            point();
        }

        @Override
        public void visitFieldInsn(final int opcode, final String owner, final String name, final String descriptor) {
            point();
            super.visitFieldInsn(opcode, owner, name, descriptor);
        }

        @Override
        public void visitMethodInsn(final int opcode, final String owner, final String name, final String descriptor, final boolean isInterface) {
            point();
            super.visitMethodInsn(opcode, owner, name, descriptor, isInterface);
        }

        @Override
        public void visitInvokeDynamicInsn(final String name, final String descriptor, final Handle bootstrap, final Object... arguments) {
            super.visitInvokeDynamicInsn(name, descriptor, bootstrap, arguments);
        }
    }

    private static final class Initialiser extends MethodVisitor {
        Initialiser(final MethodVisitor m) {
            super(Opcodes.ASM9, m);
        }

        @Override
        public void visitCode() {
            super.visitCode();
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "verifrun/Turns", "enter", "()V", false);
        }

        @Override
        public void visitInsn(final int opcode) {
            if (opcode == Opcodes.RETURN) {
                super.visitMethodInsn(Opcodes.INVOKESTATIC, "verifrun/Turns", "leave", "()V", false);
            }
            super.visitInsn(opcode);
        }
    }
}
