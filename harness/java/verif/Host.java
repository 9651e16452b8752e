package verif;
import java.io.*;
import java.lang.reflect.*;
import java.nio.file.*;
import java.util.*;

/** Runs the Java class under test as the simulator tells it to, one command and one answer at a time. */
public class Host {
	static class Fresh extends ClassLoader {
		static Map<String,byte[]> bytes = new HashMap<>(); String dir;
		Fresh(String dir){ super(Host.class.getClassLoader()); this.dir = dir; }
		protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
			if(!name.startsWith("bw.")) return super.loadClass(name, resolve);
			Class<?> c = findLoadedClass(name); if(c != null) return c;
			try { byte[] b = bytes.get(name); if(b == null){ b = Files.readAllBytes(Paths.get(dir, name.replace('.', '/') + ".class")); bytes.put(name, b); } return defineClass(name, b, 0, b.length); } catch(IOException e){ throw new ClassNotFoundException(name); }
		}
	}
	public static void main(String[] a) throws Exception {
		Bridge.in = new BufferedReader(new InputStreamReader(System.in)); Bridge.out = System.out; Bridge.main = Thread.currentThread();
		PrintStream quiet = new PrintStream(new OutputStream(){ public void write(int b){ } }); System.setOut(quiet); System.setErr(quiet); System.setIn(new ByteArrayInputStream(new byte[0]));
		Class<?> c = null; TreeMap<String,Object> slots = new TreeMap<>();
		for(;;){
			String l = Bridge.reset != null ? Bridge.reset : Bridge.read(); Bridge.reset = null; StringBuilder r = new StringBuilder();
			if(l.startsWith("reset ")){ slots.clear(); Bridge.ids.clear(); c = new Fresh(a[0]).loadClass("bw.co.roguesystems.Hdbscan"); Bridge.write(r.append(l)); continue; }
			StringTokenizer t = new StringTokenizer(l); String op = t.nextToken(), s = t.nextToken();
			try {
				Object o = slots.get(s);
				if(op.equals("new")){ slots.put(s, c.getConstructor(int.class).newInstance(Integer.parseInt(t.nextToken()))); r.append("ok"); }
				else if(op.equals("run")){ double[][] d = (double[][])Bridge.get(t), k = d == null ? null : new double[d.length][]; for(int i = 0; k != null && i < d.length; i++) k[i] = d[i] == null ? null : d[i].clone(); try { c.getMethod("run", double[][].class).invoke(o, (Object)d); } finally { if(!Arrays.deepEquals(d, k)) r.append("changed "); } r.append("ok"); }
				else if(op.equals("rerun")){ c.getMethod("reRun", int.class).invoke(o, Integer.parseInt(t.nextToken())); r.append("ok"); }
				else if(op.equals("clean")){ c.getMethod("cleanHdbscan").invoke(o); r.append("ok"); }
				else if(op.equals("labels")){ Object v = c.getMethod("getLabels").invoke(o); r.append("ok"); Bridge.put(r, v); }
				else if(op.equals("map")){ Map<?,?> m = (Map<?,?>)c.getMethod("getClusterMap").invoke(o); r.append("ok"); if(m == null) r.append(" n"); else { r.append(" m ").append(m.size()); for(Map.Entry<?,?> e : m.entrySet()){ Collection<?> v = (Collection<?>)e.getValue(); r.append(' ').append(e.getKey()).append(' ').append(v.size()); for(Object x : v) r.append(' ').append(x); } } }
				else throw new IllegalStateException(op);
			} catch(InvocationTargetException e){ r.append("ex ").append(e.getCause().getClass().getName()); }
			if(Bridge.reset == null) Bridge.write(r);
		}
	}
}
