package verif;

/** One property as an executable check over generated cases. */
abstract class Prop {
    final String id;
    final String rule;
    final int quick;
    final int thorough;
    int workers = 8;
    /** how often a replay is tried before it counts as not failing */
    int attempts = 1;

    Prop(final String id, final int quick, final int thorough, final String rule) {
        this.id = id;
        this.quick = quick;
        this.thorough = thorough;
        this.rule = rule;
    }

    abstract void run(Ctx c) throws Exception;

    /** Called once per worker before its cases. */
    void start() {
    }
}
