package verifrun;

import java.io.File;
import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.TreeSet;
import java.util.stream.Stream;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ConstantDynamic;
import org.objectweb.asm.FieldVisitor;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/** The constants in the compiled code under test, as a fuzzing dictionary. */
final class Constants {
    private Constants() {
    }

    static List<String> of(final File dir) throws IOException {
        final TreeSet<String> strings = new TreeSet<>();
        final TreeSet<Long> numbers = new TreeSet<>();
        try (Stream<Path> files = Files.walk(dir.toPath().resolve("com"))) {
            for (final Path p : files.filter(f -> f.toString().endsWith(".class")).sorted().toList()) {
                final String name = p.getFileName().toString();
                if (name.matches("BooleanExpression(Lexer|Parser|Listener|BaseListener|Visitor|BaseVisitor)(\\$.*)?\\.class")) {
                    continue;
                }
                new ClassReader(Files.readAllBytes(p)).accept(new Visitor(strings, numbers), ClassReader.SKIP_DEBUG);
            }
        }
        final List<String> out = new ArrayList<>();
        for (final String s : strings) {
            if (!s.isEmpty() && s.length() <= 200 && s.indexOf('\n') < 0 && s.indexOf('\r') < 0) {
                out.add("S " + s);
            }
        }
        numbers.forEach(n -> out.add("L " + n));
        return out;
    }

    private static final class Visitor extends ClassVisitor {
        private final TreeSet<String> strings;
        private final TreeSet<Long> numbers;

        Visitor(final TreeSet<String> strings, final TreeSet<Long> numbers) {
            super(Opcodes.ASM9);
            this.strings = strings;
            this.numbers = numbers;
        }

        private void constant(final Object v) {
            if (v instanceof String s) {
                strings.add(s);
            } else if (v instanceof Integer || v instanceof Long) {
                numbers.add(((Number) v).longValue());
            } else if (v instanceof Double || v instanceof Float) {
                numbers.add(((Number) v).longValue());
            }
        }

        @Override
        public FieldVisitor visitField(final int access, final String name, final String d, final String sig, final Object value) {
            constant(value);
            return null;
        }

        @Override
        public MethodVisitor visitMethod(final int access, final String name, final String d, final String sig, final String[] ex) {
            return new MethodVisitor(Opcodes.ASM9) {
                @Override
                public void visitLdcInsn(final Object value) {
                    if (!(value instanceof ConstantDynamic)) {
                        constant(value);
                    }
                }

                @Override
                public void visitIntInsn(final int opcode, final int operand) {
                    if (opcode != Opcodes.NEWARRAY) {
                        constant(operand);
                    }
                }

                @Override
                public void visitInsn(final int opcode) {
                    if (opcode >= Opcodes.ICONST_M1 && opcode <= Opcodes.ICONST_5) {
                        constant(opcode - Opcodes.ICONST_0);
                    }
                }

                @Override
                public void visitTableSwitchInsn(final int min, final int max, final Label dflt, final Label... labels) {
                    constant(min);
                    constant(max);
                }

                @Override
                public void visitLookupSwitchInsn(final Label dflt, final int[] keys, final Label[] labels) {
                    for (final int k : keys) {
                        constant(k);
                    }
                }

                @Override
                public void visitInvokeDynamicInsn(final String name, final String d, final Handle h, final Object... args) {
                    for (final Object a : args) {
                        if (a instanceof String s) {
                            strings.add(s.replace("\u0001", ""));
                        }
                    }
                }
            };
        }
    }
}
