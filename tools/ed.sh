ed() { python3 - "$1" "$2" "$3" <<'EOF'
import sys
f,a,b=sys.argv[1:]; f='/tmp/seedwork/harmonic_inference/'+f
s=open(f).read(); assert s.count(a)==1,(s.count(a),a); open(f,'w').write(s.replace(a,b))
EOF
}
