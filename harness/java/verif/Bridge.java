package verif;
import java.io.*;
import java.lang.reflect.*;
import java.util.*;

/** What the native methods of the class under test lead to: one request to the simulator and its answer. */
public class Bridge {
	public static class Abandon extends Error { Abandon(){ super("abandoned", null, false, false); } }
	static BufferedReader in; static PrintStream out; static Thread main; static String reset;
	static IdentityHashMap<Object,Integer> ids = new IdentityHashMap<>();
	static String read(){ try { String l = in.readLine(); if(l == null) Runtime.getRuntime().halt(0); return l; } catch(IOException e){ Runtime.getRuntime().halt(0); return null; } }
	static void write(StringBuilder b){ b.append('\n'); byte[] d = b.toString().getBytes(); out.write(d, 0, d.length); out.flush(); }
	public static void load(String name){ }
	static void put(StringBuilder b, Object o){
		if(o == null) b.append(" n");
		else if(o instanceof Integer) b.append(" i ").append(o);
		else if(o instanceof Long) b.append(" j ").append(o);
		else if(o instanceof Boolean) b.append(" z ").append((Boolean)o ? 1 : 0);
		else if(o instanceof int[]){ int[] a = (int[])o; b.append(" a ").append(a.length); for(int x : a) b.append(' ').append(x); }
		else if(o instanceof double[]){ double[] a = (double[])o; b.append(" b ").append(a.length); for(double x : a) b.append(' ').append(Double.doubleToRawLongBits(x)); }
		else if(o instanceof double[][]){ double[][] a = (double[][])o; b.append(" d ").append(a.length); for(double[] x : a) put(b, x); }
		else throw new IllegalStateException("value");
	}
	static Object get(StringTokenizer t){
		String k = t.nextToken();
		switch(k){ case "n": return null; case "i": return Integer.parseInt(t.nextToken()); case "j": return Long.parseLong(t.nextToken()); case "z": return !t.nextToken().equals("0");
		case "a": { int[] a = new int[Integer.parseInt(t.nextToken())]; for(int i = 0; i < a.length; i++) a[i] = Integer.parseInt(t.nextToken()); return a; }
		case "b": { double[] a = new double[Integer.parseInt(t.nextToken())]; for(int i = 0; i < a.length; i++) a[i] = Double.longBitsToDouble(Long.parseLong(t.nextToken())); return a; }
		case "d": { double[][] a = new double[Integer.parseInt(t.nextToken())][]; for(int i = 0; i < a.length; i++) a[i] = (double[])get(t); return a; } }
		throw new IllegalStateException(k);
	}
	static boolean plain(Field f){ Class<?> c = f.getType(); return c == int.class || c == long.class || c == boolean.class || c == int[].class; }
	@SuppressWarnings("unchecked") static <T extends Throwable> void sneak(Throwable t) throws T { throw (T)t; }
	public static Object call(Object self, String name, Object[] args){
		if(Thread.currentThread() != main) return null;
		if(reset != null) throw new Abandon();
		try {
			StringBuilder b = new StringBuilder("call " + name); Integer id = ids.get(self); if(id == null){ id = ids.size() + 1; ids.put(self, id); }
			b.append(' ').append(id); List<Field> fs = new ArrayList<>(); for(Field f : self.getClass().getDeclaredFields()) if(plain(f)){ f.setAccessible(true); fs.add(f); }
			b.append(' ').append(fs.size()); for(Field f : fs){ b.append(' ').append(f.getName()).append(Modifier.isStatic(f.getModifiers()) ? " 1" : " 0"); put(b, f.get(self)); }
			b.append(' ').append(args.length); for(Object o : args) put(b, o);
			write(b); String l = read(); if(l.startsWith("reset ")){ reset = l; throw new Abandon(); }
			StringTokenizer t = new StringTokenizer(l); String what = t.nextToken(); Object res = null; String ex = null;
			if(what.equals("ret")) res = get(t); else ex = t.nextToken();
			int n = Integer.parseInt(t.nextToken()); for(int i = 0; i < n; i++){ String fn = t.nextToken(); Object v = get(t); for(Field f : fs) if(f.getName().equals(fn) && !(Modifier.isFinal(f.getModifiers()))) f.set(self, v); }
			if(ex != null){ Throwable x; try { Class<?> c = Class.forName(ex.replace('/', '.')); try { x = (Throwable)c.getConstructor(String.class).newInstance("from the library"); } catch(NoSuchMethodException e){ x = (Throwable)c.getConstructor().newInstance(); } } catch(Throwable e){ x = new RuntimeException(ex); } Bridge.<RuntimeException>sneak(x); }
			return res;
		} catch(IllegalAccessException e){ throw new IllegalStateException(e); }
	}
}
