// generated by tools/gen_names.py: every spelling of 1 to 4 of the letters of a base of N components
#pragma once
#define NAMES1(X) \
  X(x,1,0,0,0,0,1) X(xx,2,0,0,0,0,0) X(xxx,3,0,0,0,0,0) X(xxxx,4,0,0,0,0,0)
#define WNAMES1(X) \
  X(x,1,0,0,0,0,1)
#define BADNAMES1(X) \
  X(y) X(z) X(w) X(xy) X(xz) X(xw) X(yx) X(yy) X(yz) X(yw) X(zx) X(zy) \
  X(zz) X(zw) X(wx) X(wy) X(wz) X(ww) X(xxy) X(xxz) X(xxw) X(xyx) X(xyy) X(xyz) \
  X(xyw) X(xzx) X(xzy) X(xzz) X(xzw) X(xwx) X(xwy) X(xwz) X(xww) X(yxx) X(yxy) X(yxz) \
  X(yxw) X(yyx) X(yyy) X(yyz) X(yyw) X(yzx) X(yzy) X(yzz) X(yzw) X(ywx) X(ywy) X(ywz) \
  X(yww) X(zxx) X(zxy) X(zxz) X(zxw) X(zyx) X(zyy) X(zyz) X(zyw) X(zzx) X(zzy) X(zzz) \
  X(zzw) X(zwx) X(zwy) X(zwz) X(zww) X(wxx) X(wxy) X(wxz) X(wxw) X(wyx) X(wyy) X(wyz) \
  X(wyw) X(wzx) X(wzy) X(wzz) X(wzw) X(wwx) X(wwy) X(wwz) X(www) X(xxxy) X(xxxz) X(xxxw) \
  X(xxyx) X(xxyy) X(xxyz) X(xxyw) X(xxzx) X(xxzy) X(xxzz) X(xxzw) X(xxwx) X(xxwy) X(xxwz) X(xxww) \
  X(xyxx) X(xyxy) X(xyxz) X(xyxw) X(xyyx) X(xyyy) X(xyyz) X(xyyw) X(xyzx) X(xyzy) X(xyzz) X(xyzw) \
  X(xywx) X(xywy) X(xywz) X(xyww) X(xzxx) X(xzxy) X(xzxz) X(xzxw) X(xzyx) X(xzyy) X(xzyz) X(xzyw) \
  X(xzzx) X(xzzy) X(xzzz) X(xzzw) X(xzwx) X(xzwy) X(xzwz) X(xzww) X(xwxx) X(xwxy) X(xwxz) X(xwxw) \
  X(xwyx) X(xwyy) X(xwyz) X(xwyw) X(xwzx) X(xwzy) X(xwzz) X(xwzw) X(xwwx) X(xwwy) X(xwwz) X(xwww) \
  X(yxxx) X(yxxy) X(yxxz) X(yxxw) X(yxyx) X(yxyy) X(yxyz) X(yxyw) X(yxzx) X(yxzy) X(yxzz) X(yxzw) \
  X(yxwx) X(yxwy) X(yxwz) X(yxww) X(yyxx) X(yyxy) X(yyxz) X(yyxw) X(yyyx) X(yyyy) X(yyyz) X(yyyw) \
  X(yyzx) X(yyzy) X(yyzz) X(yyzw) X(yywx) X(yywy) X(yywz) X(yyww) X(yzxx) X(yzxy) X(yzxz) X(yzxw) \
  X(yzyx) X(yzyy) X(yzyz) X(yzyw) X(yzzx) X(yzzy) X(yzzz) X(yzzw) X(yzwx) X(yzwy) X(yzwz) X(yzww) \
  X(ywxx) X(ywxy) X(ywxz) X(ywxw) X(ywyx) X(ywyy) X(ywyz) X(ywyw) X(ywzx) X(ywzy) X(ywzz) X(ywzw) \
  X(ywwx) X(ywwy) X(ywwz) X(ywww) X(zxxx) X(zxxy) X(zxxz) X(zxxw) X(zxyx) X(zxyy) X(zxyz) X(zxyw) \
  X(zxzx) X(zxzy) X(zxzz) X(zxzw) X(zxwx) X(zxwy) X(zxwz) X(zxww) X(zyxx) X(zyxy) X(zyxz) X(zyxw) \
  X(zyyx) X(zyyy) X(zyyz) X(zyyw) X(zyzx) X(zyzy) X(zyzz) X(zyzw) X(zywx) X(zywy) X(zywz) X(zyww) \
  X(zzxx) X(zzxy) X(zzxz) X(zzxw) X(zzyx) X(zzyy) X(zzyz) X(zzyw) X(zzzx) X(zzzy) X(zzzz) X(zzzw) \
  X(zzwx) X(zzwy) X(zzwz) X(zzww) X(zwxx) X(zwxy) X(zwxz) X(zwxw) X(zwyx) X(zwyy) X(zwyz) X(zwyw) \
  X(zwzx) X(zwzy) X(zwzz) X(zwzw) X(zwwx) X(zwwy) X(zwwz) X(zwww) X(wxxx) X(wxxy) X(wxxz) X(wxxw) \
  X(wxyx) X(wxyy) X(wxyz) X(wxyw) X(wxzx) X(wxzy) X(wxzz) X(wxzw) X(wxwx) X(wxwy) X(wxwz) X(wxww) \
  X(wyxx) X(wyxy) X(wyxz) X(wyxw) X(wyyx) X(wyyy) X(wyyz) X(wyyw) X(wyzx) X(wyzy) X(wyzz) X(wyzw) \
  X(wywx) X(wywy) X(wywz) X(wyww) X(wzxx) X(wzxy) X(wzxz) X(wzxw) X(wzyx) X(wzyy) X(wzyz) X(wzyw) \
  X(wzzx) X(wzzy) X(wzzz) X(wzzw) X(wzwx) X(wzwy) X(wzwz) X(wzww) X(wwxx) X(wwxy) X(wwxz) X(wwxw) \
  X(wwyx) X(wwyy) X(wwyz) X(wwyw) X(wwzx) X(wwzy) X(wwzz) X(wwzw) X(wwwx) X(wwwy) X(wwwz) X(wwww)
#define NAMES2(X) \
  X(x,1,0,0,0,0,1) X(y,1,1,0,0,0,1) X(xx,2,0,0,0,0,0) X(xy,2,0,1,0,0,1) X(yx,2,1,0,0,0,1) X(yy,2,1,1,0,0,0) \
  X(xxx,3,0,0,0,0,0) X(xxy,3,0,0,1,0,0) X(xyx,3,0,1,0,0,0) X(xyy,3,0,1,1,0,0) X(yxx,3,1,0,0,0,0) X(yxy,3,1,0,1,0,0) \
  X(yyx,3,1,1,0,0,0) X(yyy,3,1,1,1,0,0) X(xxxx,4,0,0,0,0,0) X(xxxy,4,0,0,0,1,0) X(xxyx,4,0,0,1,0,0) X(xxyy,4,0,0,1,1,0) \
  X(xyxx,4,0,1,0,0,0) X(xyxy,4,0,1,0,1,0) X(xyyx,4,0,1,1,0,0) X(xyyy,4,0,1,1,1,0) X(yxxx,4,1,0,0,0,0) X(yxxy,4,1,0,0,1,0) \
  X(yxyx,4,1,0,1,0,0) X(yxyy,4,1,0,1,1,0) X(yyxx,4,1,1,0,0,0) X(yyxy,4,1,1,0,1,0) X(yyyx,4,1,1,1,0,0) X(yyyy,4,1,1,1,1,0)
#define WNAMES2(X) \
  X(x,1,0,0,0,0,1) X(y,1,1,0,0,0,1) X(xy,2,0,1,0,0,1) X(yx,2,1,0,0,0,1)
#define BADNAMES2(X) \
  X(z) X(w) X(xz) X(xw) X(yz) X(yw) X(zx) X(zy) X(zz) X(zw) X(wx) X(wy) \
  X(wz) X(ww) X(xxz) X(xxw) X(xyz) X(xyw) X(xzx) X(xzy) X(xzz) X(xzw) X(xwx) X(xwy) \
  X(xwz) X(xww) X(yxz) X(yxw) X(yyz) X(yyw) X(yzx) X(yzy) X(yzz) X(yzw) X(ywx) X(ywy) \
  X(ywz) X(yww) X(zxx) X(zxy) X(zxz) X(zxw) X(zyx) X(zyy) X(zyz) X(zyw) X(zzx) X(zzy) \
  X(zzz) X(zzw) X(zwx) X(zwy) X(zwz) X(zww) X(wxx) X(wxy) X(wxz) X(wxw) X(wyx) X(wyy) \
  X(wyz) X(wyw) X(wzx) X(wzy) X(wzz) X(wzw) X(wwx) X(wwy) X(wwz) X(www) X(xxxz) X(xxxw) \
  X(xxyz) X(xxyw) X(xxzx) X(xxzy) X(xxzz) X(xxzw) X(xxwx) X(xxwy) X(xxwz) X(xxww) X(xyxz) X(xyxw) \
  X(xyyz) X(xyyw) X(xyzx) X(xyzy) X(xyzz) X(xyzw) X(xywx) X(xywy) X(xywz) X(xyww) X(xzxx) X(xzxy) \
  X(xzxz) X(xzxw) X(xzyx) X(xzyy) X(xzyz) X(xzyw) X(xzzx) X(xzzy) X(xzzz) X(xzzw) X(xzwx) X(xzwy) \
  X(xzwz) X(xzww) X(xwxx) X(xwxy) X(xwxz) X(xwxw) X(xwyx) X(xwyy) X(xwyz) X(xwyw) X(xwzx) X(xwzy) \
  X(xwzz) X(xwzw) X(xwwx) X(xwwy) X(xwwz) X(xwww) X(yxxz) X(yxxw) X(yxyz) X(yxyw) X(yxzx) X(yxzy) \
  X(yxzz) X(yxzw) X(yxwx) X(yxwy) X(yxwz) X(yxww) X(yyxz) X(yyxw) X(yyyz) X(yyyw) X(yyzx) X(yyzy) \
  X(yyzz) X(yyzw) X(yywx) X(yywy) X(yywz) X(yyww) X(yzxx) X(yzxy) X(yzxz) X(yzxw) X(yzyx) X(yzyy) \
  X(yzyz) X(yzyw) X(yzzx) X(yzzy) X(yzzz) X(yzzw) X(yzwx) X(yzwy) X(yzwz) X(yzww) X(ywxx) X(ywxy) \
  X(ywxz) X(ywxw) X(ywyx) X(ywyy) X(ywyz) X(ywyw) X(ywzx) X(ywzy) X(ywzz) X(ywzw) X(ywwx) X(ywwy) \
  X(ywwz) X(ywww) X(zxxx) X(zxxy) X(zxxz) X(zxxw) X(zxyx) X(zxyy) X(zxyz) X(zxyw) X(zxzx) X(zxzy) \
  X(zxzz) X(zxzw) X(zxwx) X(zxwy) X(zxwz) X(zxww) X(zyxx) X(zyxy) X(zyxz) X(zyxw) X(zyyx) X(zyyy) \
  X(zyyz) X(zyyw) X(zyzx) X(zyzy) X(zyzz) X(zyzw) X(zywx) X(zywy) X(zywz) X(zyww) X(zzxx) X(zzxy) \
  X(zzxz) X(zzxw) X(zzyx) X(zzyy) X(zzyz) X(zzyw) X(zzzx) X(zzzy) X(zzzz) X(zzzw) X(zzwx) X(zzwy) \
  X(zzwz) X(zzww) X(zwxx) X(zwxy) X(zwxz) X(zwxw) X(zwyx) X(zwyy) X(zwyz) X(zwyw) X(zwzx) X(zwzy) \
  X(zwzz) X(zwzw) X(zwwx) X(zwwy) X(zwwz) X(zwww) X(wxxx) X(wxxy) X(wxxz) X(wxxw) X(wxyx) X(wxyy) \
  X(wxyz) X(wxyw) X(wxzx) X(wxzy) X(wxzz) X(wxzw) X(wxwx) X(wxwy) X(wxwz) X(wxww) X(wyxx) X(wyxy) \
  X(wyxz) X(wyxw) X(wyyx) X(wyyy) X(wyyz) X(wyyw) X(wyzx) X(wyzy) X(wyzz) X(wyzw) X(wywx) X(wywy) \
  X(wywz) X(wyww) X(wzxx) X(wzxy) X(wzxz) X(wzxw) X(wzyx) X(wzyy) X(wzyz) X(wzyw) X(wzzx) X(wzzy) \
  X(wzzz) X(wzzw) X(wzwx) X(wzwy) X(wzwz) X(wzww) X(wwxx) X(wwxy) X(wwxz) X(wwxw) X(wwyx) X(wwyy) \
  X(wwyz) X(wwyw) X(wwzx) X(wwzy) X(wwzz) X(wwzw) X(wwwx) X(wwwy) X(wwwz) X(wwww)
#define NAMES3(X) \
  X(x,1,0,0,0,0,1) X(y,1,1,0,0,0,1) X(z,1,2,0,0,0,1) X(xx,2,0,0,0,0,0) X(xy,2,0,1,0,0,1) X(xz,2,0,2,0,0,1) \
  X(yx,2,1,0,0,0,1) X(yy,2,1,1,0,0,0) X(yz,2,1,2,0,0,1) X(zx,2,2,0,0,0,1) X(zy,2,2,1,0,0,1) X(zz,2,2,2,0,0,0) \
  X(xxx,3,0,0,0,0,0) X(xxy,3,0,0,1,0,0) X(xxz,3,0,0,2,0,0) X(xyx,3,0,1,0,0,0) X(xyy,3,0,1,1,0,0) X(xyz,3,0,1,2,0,1) \
  X(xzx,3,0,2,0,0,0) X(xzy,3,0,2,1,0,1) X(xzz,3,0,2,2,0,0) X(yxx,3,1,0,0,0,0) X(yxy,3,1,0,1,0,0) X(yxz,3,1,0,2,0,1) \
  X(yyx,3,1,1,0,0,0) X(yyy,3,1,1,1,0,0) X(yyz,3,1,1,2,0,0) X(yzx,3,1,2,0,0,1) X(yzy,3,1,2,1,0,0) X(yzz,3,1,2,2,0,0) \
  X(zxx,3,2,0,0,0,0) X(zxy,3,2,0,1,0,1) X(zxz,3,2,0,2,0,0) X(zyx,3,2,1,0,0,1) X(zyy,3,2,1,1,0,0) X(zyz,3,2,1,2,0,0) \
  X(zzx,3,2,2,0,0,0) X(zzy,3,2,2,1,0,0) X(zzz,3,2,2,2,0,0) X(xxxx,4,0,0,0,0,0) X(xxxy,4,0,0,0,1,0) X(xxxz,4,0,0,0,2,0) \
  X(xxyx,4,0,0,1,0,0) X(xxyy,4,0,0,1,1,0) X(xxyz,4,0,0,1,2,0) X(xxzx,4,0,0,2,0,0) X(xxzy,4,0,0,2,1,0) X(xxzz,4,0,0,2,2,0) \
  X(xyxx,4,0,1,0,0,0) X(xyxy,4,0,1,0,1,0) X(xyxz,4,0,1,0,2,0) X(xyyx,4,0,1,1,0,0) X(xyyy,4,0,1,1,1,0) X(xyyz,4,0,1,1,2,0) \
  X(xyzx,4,0,1,2,0,0) X(xyzy,4,0,1,2,1,0) X(xyzz,4,0,1,2,2,0) X(xzxx,4,0,2,0,0,0) X(xzxy,4,0,2,0,1,0) X(xzxz,4,0,2,0,2,0) \
  X(xzyx,4,0,2,1,0,0) X(xzyy,4,0,2,1,1,0) X(xzyz,4,0,2,1,2,0) X(xzzx,4,0,2,2,0,0) X(xzzy,4,0,2,2,1,0) X(xzzz,4,0,2,2,2,0) \
  X(yxxx,4,1,0,0,0,0) X(yxxy,4,1,0,0,1,0) X(yxxz,4,1,0,0,2,0) X(yxyx,4,1,0,1,0,0) X(yxyy,4,1,0,1,1,0) X(yxyz,4,1,0,1,2,0) \
  X(yxzx,4,1,0,2,0,0) X(yxzy,4,1,0,2,1,0) X(yxzz,4,1,0,2,2,0) X(yyxx,4,1,1,0,0,0) X(yyxy,4,1,1,0,1,0) X(yyxz,4,1,1,0,2,0) \
  X(yyyx,4,1,1,1,0,0) X(yyyy,4,1,1,1,1,0) X(yyyz,4,1,1,1,2,0) X(yyzx,4,1,1,2,0,0) X(yyzy,4,1,1,2,1,0) X(yyzz,4,1,1,2,2,0) \
  X(yzxx,4,1,2,0,0,0) X(yzxy,4,1,2,0,1,0) X(yzxz,4,1,2,0,2,0) X(yzyx,4,1,2,1,0,0) X(yzyy,4,1,2,1,1,0) X(yzyz,4,1,2,1,2,0) \
  X(yzzx,4,1,2,2,0,0) X(yzzy,4,1,2,2,1,0) X(yzzz,4,1,2,2,2,0) X(zxxx,4,2,0,0,0,0) X(zxxy,4,2,0,0,1,0) X(zxxz,4,2,0,0,2,0) \
  X(zxyx,4,2,0,1,0,0) X(zxyy,4,2,0,1,1,0) X(zxyz,4,2,0,1,2,0) X(zxzx,4,2,0,2,0,0) X(zxzy,4,2,0,2,1,0) X(zxzz,4,2,0,2,2,0) \
  X(zyxx,4,2,1,0,0,0) X(zyxy,4,2,1,0,1,0) X(zyxz,4,2,1,0,2,0) X(zyyx,4,2,1,1,0,0) X(zyyy,4,2,1,1,1,0) X(zyyz,4,2,1,1,2,0) \
  X(zyzx,4,2,1,2,0,0) X(zyzy,4,2,1,2,1,0) X(zyzz,4,2,1,2,2,0) X(zzxx,4,2,2,0,0,0) X(zzxy,4,2,2,0,1,0) X(zzxz,4,2,2,0,2,0) \
  X(zzyx,4,2,2,1,0,0) X(zzyy,4,2,2,1,1,0) X(zzyz,4,2,2,1,2,0) X(zzzx,4,2,2,2,0,0) X(zzzy,4,2,2,2,1,0) X(zzzz,4,2,2,2,2,0)
#define WNAMES3(X) \
  X(x,1,0,0,0,0,1) X(y,1,1,0,0,0,1) X(z,1,2,0,0,0,1) X(xy,2,0,1,0,0,1) X(xz,2,0,2,0,0,1) X(yx,2,1,0,0,0,1) \
  X(yz,2,1,2,0,0,1) X(zx,2,2,0,0,0,1) X(zy,2,2,1,0,0,1) X(xyz,3,0,1,2,0,1) X(xzy,3,0,2,1,0,1) X(yxz,3,1,0,2,0,1) \
  X(yzx,3,1,2,0,0,1) X(zxy,3,2,0,1,0,1) X(zyx,3,2,1,0,0,1)
#define BADNAMES3(X) \
  X(w) X(xw) X(yw) X(zw) X(wx) X(wy) X(wz) X(ww) X(xxw) X(xyw) X(xzw) X(xwx) \
  X(xwy) X(xwz) X(xww) X(yxw) X(yyw) X(yzw) X(ywx) X(ywy) X(ywz) X(yww) X(zxw) X(zyw) \
  X(zzw) X(zwx) X(zwy) X(zwz) X(zww) X(wxx) X(wxy) X(wxz) X(wxw) X(wyx) X(wyy) X(wyz) \
  X(wyw) X(wzx) X(wzy) X(wzz) X(wzw) X(wwx) X(wwy) X(wwz) X(www) X(xxxw) X(xxyw) X(xxzw) \
  X(xxwx) X(xxwy) X(xxwz) X(xxww) X(xyxw) X(xyyw) X(xyzw) X(xywx) X(xywy) X(xywz) X(xyww) X(xzxw) \
  X(xzyw) X(xzzw) X(xzwx) X(xzwy) X(xzwz) X(xzww) X(xwxx) X(xwxy) X(xwxz) X(xwxw) X(xwyx) X(xwyy) \
  X(xwyz) X(xwyw) X(xwzx) X(xwzy) X(xwzz) X(xwzw) X(xwwx) X(xwwy) X(xwwz) X(xwww) X(yxxw) X(yxyw) \
  X(yxzw) X(yxwx) X(yxwy) X(yxwz) X(yxww) X(yyxw) X(yyyw) X(yyzw) X(yywx) X(yywy) X(yywz) X(yyww) \
  X(yzxw) X(yzyw) X(yzzw) X(yzwx) X(yzwy) X(yzwz) X(yzww) X(ywxx) X(ywxy) X(ywxz) X(ywxw) X(ywyx) \
  X(ywyy) X(ywyz) X(ywyw) X(ywzx) X(ywzy) X(ywzz) X(ywzw) X(ywwx) X(ywwy) X(ywwz) X(ywww) X(zxxw) \
  X(zxyw) X(zxzw) X(zxwx) X(zxwy) X(zxwz) X(zxww) X(zyxw) X(zyyw) X(zyzw) X(zywx) X(zywy) X(zywz) \
  X(zyww) X(zzxw) X(zzyw) X(zzzw) X(zzwx) X(zzwy) X(zzwz) X(zzww) X(zwxx) X(zwxy) X(zwxz) X(zwxw) \
  X(zwyx) X(zwyy) X(zwyz) X(zwyw) X(zwzx) X(zwzy) X(zwzz) X(zwzw) X(zwwx) X(zwwy) X(zwwz) X(zwww) \
  X(wxxx) X(wxxy) X(wxxz) X(wxxw) X(wxyx) X(wxyy) X(wxyz) X(wxyw) X(wxzx) X(wxzy) X(wxzz) X(wxzw) \
  X(wxwx) X(wxwy) X(wxwz) X(wxww) X(wyxx) X(wyxy) X(wyxz) X(wyxw) X(wyyx) X(wyyy) X(wyyz) X(wyyw) \
  X(wyzx) X(wyzy) X(wyzz) X(wyzw) X(wywx) X(wywy) X(wywz) X(wyww) X(wzxx) X(wzxy) X(wzxz) X(wzxw) \
  X(wzyx) X(wzyy) X(wzyz) X(wzyw) X(wzzx) X(wzzy) X(wzzz) X(wzzw) X(wzwx) X(wzwy) X(wzwz) X(wzww) \
  X(wwxx) X(wwxy) X(wwxz) X(wwxw) X(wwyx) X(wwyy) X(wwyz) X(wwyw) X(wwzx) X(wwzy) X(wwzz) X(wwzw) \
  X(wwwx) X(wwwy) X(wwwz) X(wwww)
#define NAMES4(X) \
  X(x,1,0,0,0,0,1) X(y,1,1,0,0,0,1) X(z,1,2,0,0,0,1) X(w,1,3,0,0,0,1) X(xx,2,0,0,0,0,0) X(xy,2,0,1,0,0,1) \
  X(xz,2,0,2,0,0,1) X(xw,2,0,3,0,0,1) X(yx,2,1,0,0,0,1) X(yy,2,1,1,0,0,0) X(yz,2,1,2,0,0,1) X(yw,2,1,3,0,0,1) \
  X(zx,2,2,0,0,0,1) X(zy,2,2,1,0,0,1) X(zz,2,2,2,0,0,0) X(zw,2,2,3,0,0,1) X(wx,2,3,0,0,0,1) X(wy,2,3,1,0,0,1) \
  X(wz,2,3,2,0,0,1) X(ww,2,3,3,0,0,0) X(xxx,3,0,0,0,0,0) X(xxy,3,0,0,1,0,0) X(xxz,3,0,0,2,0,0) X(xxw,3,0,0,3,0,0) \
  X(xyx,3,0,1,0,0,0) X(xyy,3,0,1,1,0,0) X(xyz,3,0,1,2,0,1) X(xyw,3,0,1,3,0,1) X(xzx,3,0,2,0,0,0) X(xzy,3,0,2,1,0,1) \
  X(xzz,3,0,2,2,0,0) X(xzw,3,0,2,3,0,1) X(xwx,3,0,3,0,0,0) X(xwy,3,0,3,1,0,1) X(xwz,3,0,3,2,0,1) X(xww,3,0,3,3,0,0) \
  X(yxx,3,1,0,0,0,0) X(yxy,3,1,0,1,0,0) X(yxz,3,1,0,2,0,1) X(yxw,3,1,0,3,0,1) X(yyx,3,1,1,0,0,0) X(yyy,3,1,1,1,0,0) \
  X(yyz,3,1,1,2,0,0) X(yyw,3,1,1,3,0,0) X(yzx,3,1,2,0,0,1) X(yzy,3,1,2,1,0,0) X(yzz,3,1,2,2,0,0) X(yzw,3,1,2,3,0,1) \
  X(ywx,3,1,3,0,0,1) X(ywy,3,1,3,1,0,0) X(ywz,3,1,3,2,0,1) X(yww,3,1,3,3,0,0) X(zxx,3,2,0,0,0,0) X(zxy,3,2,0,1,0,1) \
  X(zxz,3,2,0,2,0,0) X(zxw,3,2,0,3,0,1) X(zyx,3,2,1,0,0,1) X(zyy,3,2,1,1,0,0) X(zyz,3,2,1,2,0,0) X(zyw,3,2,1,3,0,1) \
  X(zzx,3,2,2,0,0,0) X(zzy,3,2,2,1,0,0) X(zzz,3,2,2,2,0,0) X(zzw,3,2,2,3,0,0) X(zwx,3,2,3,0,0,1) X(zwy,3,2,3,1,0,1) \
  X(zwz,3,2,3,2,0,0) X(zww,3,2,3,3,0,0) X(wxx,3,3,0,0,0,0) X(wxy,3,3,0,1,0,1) X(wxz,3,3,0,2,0,1) X(wxw,3,3,0,3,0,0) \
  X(wyx,3,3,1,0,0,1) X(wyy,3,3,1,1,0,0) X(wyz,3,3,1,2,0,1) X(wyw,3,3,1,3,0,0) X(wzx,3,3,2,0,0,1) X(wzy,3,3,2,1,0,1) \
  X(wzz,3,3,2,2,0,0) X(wzw,3,3,2,3,0,0) X(wwx,3,3,3,0,0,0) X(wwy,3,3,3,1,0,0) X(wwz,3,3,3,2,0,0) X(www,3,3,3,3,0,0) \
  X(xxxx,4,0,0,0,0,0) X(xxxy,4,0,0,0,1,0) X(xxxz,4,0,0,0,2,0) X(xxxw,4,0,0,0,3,0) X(xxyx,4,0,0,1,0,0) X(xxyy,4,0,0,1,1,0) \
  X(xxyz,4,0,0,1,2,0) X(xxyw,4,0,0,1,3,0) X(xxzx,4,0,0,2,0,0) X(xxzy,4,0,0,2,1,0) X(xxzz,4,0,0,2,2,0) X(xxzw,4,0,0,2,3,0) \
  X(xxwx,4,0,0,3,0,0) X(xxwy,4,0,0,3,1,0) X(xxwz,4,0,0,3,2,0) X(xxww,4,0,0,3,3,0) X(xyxx,4,0,1,0,0,0) X(xyxy,4,0,1,0,1,0) \
  X(xyxz,4,0,1,0,2,0) X(xyxw,4,0,1,0,3,0) X(xyyx,4,0,1,1,0,0) X(xyyy,4,0,1,1,1,0) X(xyyz,4,0,1,1,2,0) X(xyyw,4,0,1,1,3,0) \
  X(xyzx,4,0,1,2,0,0) X(xyzy,4,0,1,2,1,0) X(xyzz,4,0,1,2,2,0) X(xyzw,4,0,1,2,3,1) X(xywx,4,0,1,3,0,0) X(xywy,4,0,1,3,1,0) \
  X(xywz,4,0,1,3,2,1) X(xyww,4,0,1,3,3,0) X(xzxx,4,0,2,0,0,0) X(xzxy,4,0,2,0,1,0) X(xzxz,4,0,2,0,2,0) X(xzxw,4,0,2,0,3,0) \
  X(xzyx,4,0,2,1,0,0) X(xzyy,4,0,2,1,1,0) X(xzyz,4,0,2,1,2,0) X(xzyw,4,0,2,1,3,1) X(xzzx,4,0,2,2,0,0) X(xzzy,4,0,2,2,1,0) \
  X(xzzz,4,0,2,2,2,0) X(xzzw,4,0,2,2,3,0) X(xzwx,4,0,2,3,0,0) X(xzwy,4,0,2,3,1,1) X(xzwz,4,0,2,3,2,0) X(xzww,4,0,2,3,3,0) \
  X(xwxx,4,0,3,0,0,0) X(xwxy,4,0,3,0,1,0) X(xwxz,4,0,3,0,2,0) X(xwxw,4,0,3,0,3,0) X(xwyx,4,0,3,1,0,0) X(xwyy,4,0,3,1,1,0) \
  X(xwyz,4,0,3,1,2,1) X(xwyw,4,0,3,1,3,0) X(xwzx,4,0,3,2,0,0) X(xwzy,4,0,3,2,1,1) X(xwzz,4,0,3,2,2,0) X(xwzw,4,0,3,2,3,0) \
  X(xwwx,4,0,3,3,0,0) X(xwwy,4,0,3,3,1,0) X(xwwz,4,0,3,3,2,0) X(xwww,4,0,3,3,3,0) X(yxxx,4,1,0,0,0,0) X(yxxy,4,1,0,0,1,0) \
  X(yxxz,4,1,0,0,2,0) X(yxxw,4,1,0,0,3,0) X(yxyx,4,1,0,1,0,0) X(yxyy,4,1,0,1,1,0) X(yxyz,4,1,0,1,2,0) X(yxyw,4,1,0,1,3,0) \
  X(yxzx,4,1,0,2,0,0) X(yxzy,4,1,0,2,1,0) X(yxzz,4,1,0,2,2,0) X(yxzw,4,1,0,2,3,1) X(yxwx,4,1,0,3,0,0) X(yxwy,4,1,0,3,1,0) \
  X(yxwz,4,1,0,3,2,1) X(yxww,4,1,0,3,3,0) X(yyxx,4,1,1,0,0,0) X(yyxy,4,1,1,0,1,0) X(yyxz,4,1,1,0,2,0) X(yyxw,4,1,1,0,3,0) \
  X(yyyx,4,1,1,1,0,0) X(yyyy,4,1,1,1,1,0) X(yyyz,4,1,1,1,2,0) X(yyyw,4,1,1,1,3,0) X(yyzx,4,1,1,2,0,0) X(yyzy,4,1,1,2,1,0) \
  X(yyzz,4,1,1,2,2,0) X(yyzw,4,1,1,2,3,0) X(yywx,4,1,1,3,0,0) X(yywy,4,1,1,3,1,0) X(yywz,4,1,1,3,2,0) X(yyww,4,1,1,3,3,0) \
  X(yzxx,4,1,2,0,0,0) X(yzxy,4,1,2,0,1,0) X(yzxz,4,1,2,0,2,0) X(yzxw,4,1,2,0,3,1) X(yzyx,4,1,2,1,0,0) X(yzyy,4,1,2,1,1,0) \
  X(yzyz,4,1,2,1,2,0) X(yzyw,4,1,2,1,3,0) X(yzzx,4,1,2,2,0,0) X(yzzy,4,1,2,2,1,0) X(yzzz,4,1,2,2,2,0) X(yzzw,4,1,2,2,3,0) \
  X(yzwx,4,1,2,3,0,1) X(yzwy,4,1,2,3,1,0) X(yzwz,4,1,2,3,2,0) X(yzww,4,1,2,3,3,0) X(ywxx,4,1,3,0,0,0) X(ywxy,4,1,3,0,1,0) \
  X(ywxz,4,1,3,0,2,1) X(ywxw,4,1,3,0,3,0) X(ywyx,4,1,3,1,0,0) X(ywyy,4,1,3,1,1,0) X(ywyz,4,1,3,1,2,0) X(ywyw,4,1,3,1,3,0) \
  X(ywzx,4,1,3,2,0,1) X(ywzy,4,1,3,2,1,0) X(ywzz,4,1,3,2,2,0) X(ywzw,4,1,3,2,3,0) X(ywwx,4,1,3,3,0,0) X(ywwy,4,1,3,3,1,0) \
  X(ywwz,4,1,3,3,2,0) X(ywww,4,1,3,3,3,0) X(zxxx,4,2,0,0,0,0) X(zxxy,4,2,0,0,1,0) X(zxxz,4,2,0,0,2,0) X(zxxw,4,2,0,0,3,0) \
  X(zxyx,4,2,0,1,0,0) X(zxyy,4,2,0,1,1,0) X(zxyz,4,2,0,1,2,0) X(zxyw,4,2,0,1,3,1) X(zxzx,4,2,0,2,0,0) X(zxzy,4,2,0,2,1,0) \
  X(zxzz,4,2,0,2,2,0) X(zxzw,4,2,0,2,3,0) X(zxwx,4,2,0,3,0,0) X(zxwy,4,2,0,3,1,1) X(zxwz,4,2,0,3,2,0) X(zxww,4,2,0,3,3,0) \
  X(zyxx,4,2,1,0,0,0) X(zyxy,4,2,1,0,1,0) X(zyxz,4,2,1,0,2,0) X(zyxw,4,2,1,0,3,1) X(zyyx,4,2,1,1,0,0) X(zyyy,4,2,1,1,1,0) \
  X(zyyz,4,2,1,1,2,0) X(zyyw,4,2,1,1,3,0) X(zyzx,4,2,1,2,0,0) X(zyzy,4,2,1,2,1,0) X(zyzz,4,2,1,2,2,0) X(zyzw,4,2,1,2,3,0) \
  X(zywx,4,2,1,3,0,1) X(zywy,4,2,1,3,1,0) X(zywz,4,2,1,3,2,0) X(zyww,4,2,1,3,3,0) X(zzxx,4,2,2,0,0,0) X(zzxy,4,2,2,0,1,0) \
  X(zzxz,4,2,2,0,2,0) X(zzxw,4,2,2,0,3,0) X(zzyx,4,2,2,1,0,0) X(zzyy,4,2,2,1,1,0) X(zzyz,4,2,2,1,2,0) X(zzyw,4,2,2,1,3,0) \
  X(zzzx,4,2,2,2,0,0) X(zzzy,4,2,2,2,1,0) X(zzzz,4,2,2,2,2,0) X(zzzw,4,2,2,2,3,0) X(zzwx,4,2,2,3,0,0) X(zzwy,4,2,2,3,1,0) \
  X(zzwz,4,2,2,3,2,0) X(zzww,4,2,2,3,3,0) X(zwxx,4,2,3,0,0,0) X(zwxy,4,2,3,0,1,1) X(zwxz,4,2,3,0,2,0) X(zwxw,4,2,3,0,3,0) \
  X(zwyx,4,2,3,1,0,1) X(zwyy,4,2,3,1,1,0) X(zwyz,4,2,3,1,2,0) X(zwyw,4,2,3,1,3,0) X(zwzx,4,2,3,2,0,0) X(zwzy,4,2,3,2,1,0) \
  X(zwzz,4,2,3,2,2,0) X(zwzw,4,2,3,2,3,0) X(zwwx,4,2,3,3,0,0) X(zwwy,4,2,3,3,1,0) X(zwwz,4,2,3,3,2,0) X(zwww,4,2,3,3,3,0) \
  X(wxxx,4,3,0,0,0,0) X(wxxy,4,3,0,0,1,0) X(wxxz,4,3,0,0,2,0) X(wxxw,4,3,0,0,3,0) X(wxyx,4,3,0,1,0,0) X(wxyy,4,3,0,1,1,0) \
  X(wxyz,4,3,0,1,2,1) X(wxyw,4,3,0,1,3,0) X(wxzx,4,3,0,2,0,0) X(wxzy,4,3,0,2,1,1) X(wxzz,4,3,0,2,2,0) X(wxzw,4,3,0,2,3,0) \
  X(wxwx,4,3,0,3,0,0) X(wxwy,4,3,0,3,1,0) X(wxwz,4,3,0,3,2,0) X(wxww,4,3,0,3,3,0) X(wyxx,4,3,1,0,0,0) X(wyxy,4,3,1,0,1,0) \
  X(wyxz,4,3,1,0,2,1) X(wyxw,4,3,1,0,3,0) X(wyyx,4,3,1,1,0,0) X(wyyy,4,3,1,1,1,0) X(wyyz,4,3,1,1,2,0) X(wyyw,4,3,1,1,3,0) \
  X(wyzx,4,3,1,2,0,1) X(wyzy,4,3,1,2,1,0) X(wyzz,4,3,1,2,2,0) X(wyzw,4,3,1,2,3,0) X(wywx,4,3,1,3,0,0) X(wywy,4,3,1,3,1,0) \
  X(wywz,4,3,1,3,2,0) X(wyww,4,3,1,3,3,0) X(wzxx,4,3,2,0,0,0) X(wzxy,4,3,2,0,1,1) X(wzxz,4,3,2,0,2,0) X(wzxw,4,3,2,0,3,0) \
  X(wzyx,4,3,2,1,0,1) X(wzyy,4,3,2,1,1,0) X(wzyz,4,3,2,1,2,0) X(wzyw,4,3,2,1,3,0) X(wzzx,4,3,2,2,0,0) X(wzzy,4,3,2,2,1,0) \
  X(wzzz,4,3,2,2,2,0) X(wzzw,4,3,2,2,3,0) X(wzwx,4,3,2,3,0,0) X(wzwy,4,3,2,3,1,0) X(wzwz,4,3,2,3,2,0) X(wzww,4,3,2,3,3,0) \
  X(wwxx,4,3,3,0,0,0) X(wwxy,4,3,3,0,1,0) X(wwxz,4,3,3,0,2,0) X(wwxw,4,3,3,0,3,0) X(wwyx,4,3,3,1,0,0) X(wwyy,4,3,3,1,1,0) \
  X(wwyz,4,3,3,1,2,0) X(wwyw,4,3,3,1,3,0) X(wwzx,4,3,3,2,0,0) X(wwzy,4,3,3,2,1,0) X(wwzz,4,3,3,2,2,0) X(wwzw,4,3,3,2,3,0) \
  X(wwwx,4,3,3,3,0,0) X(wwwy,4,3,3,3,1,0) X(wwwz,4,3,3,3,2,0) X(wwww,4,3,3,3,3,0)
#define WNAMES4(X) \
  X(x,1,0,0,0,0,1) X(y,1,1,0,0,0,1) X(z,1,2,0,0,0,1) X(w,1,3,0,0,0,1) X(xy,2,0,1,0,0,1) X(xz,2,0,2,0,0,1) \
  X(xw,2,0,3,0,0,1) X(yx,2,1,0,0,0,1) X(yz,2,1,2,0,0,1) X(yw,2,1,3,0,0,1) X(zx,2,2,0,0,0,1) X(zy,2,2,1,0,0,1) \
  X(zw,2,2,3,0,0,1) X(wx,2,3,0,0,0,1) X(wy,2,3,1,0,0,1) X(wz,2,3,2,0,0,1) X(xyz,3,0,1,2,0,1) X(xyw,3,0,1,3,0,1) \
  X(xzy,3,0,2,1,0,1) X(xzw,3,0,2,3,0,1) X(xwy,3,0,3,1,0,1) X(xwz,3,0,3,2,0,1) X(yxz,3,1,0,2,0,1) X(yxw,3,1,0,3,0,1) \
  X(yzx,3,1,2,0,0,1) X(yzw,3,1,2,3,0,1) X(ywx,3,1,3,0,0,1) X(ywz,3,1,3,2,0,1) X(zxy,3,2,0,1,0,1) X(zxw,3,2,0,3,0,1) \
  X(zyx,3,2,1,0,0,1) X(zyw,3,2,1,3,0,1) X(zwx,3,2,3,0,0,1) X(zwy,3,2,3,1,0,1) X(wxy,3,3,0,1,0,1) X(wxz,3,3,0,2,0,1) \
  X(wyx,3,3,1,0,0,1) X(wyz,3,3,1,2,0,1) X(wzx,3,3,2,0,0,1) X(wzy,3,3,2,1,0,1) X(xyzw,4,0,1,2,3,1) X(xywz,4,0,1,3,2,1) \
  X(xzyw,4,0,2,1,3,1) X(xzwy,4,0,2,3,1,1) X(xwyz,4,0,3,1,2,1) X(xwzy,4,0,3,2,1,1) X(yxzw,4,1,0,2,3,1) X(yxwz,4,1,0,3,2,1) \
  X(yzxw,4,1,2,0,3,1) X(yzwx,4,1,2,3,0,1) X(ywxz,4,1,3,0,2,1) X(ywzx,4,1,3,2,0,1) X(zxyw,4,2,0,1,3,1) X(zxwy,4,2,0,3,1,1) \
  X(zyxw,4,2,1,0,3,1) X(zywx,4,2,1,3,0,1) X(zwxy,4,2,3,0,1,1) X(zwyx,4,2,3,1,0,1) X(wxyz,4,3,0,1,2,1) X(wxzy,4,3,0,2,1,1) \
  X(wyxz,4,3,1,0,2,1) X(wyzx,4,3,1,2,0,1) X(wzxy,4,3,2,0,1,1) X(wzyx,4,3,2,1,0,1)
#define WPAIRS1(X) \
  X(x,1,0,0,0,0,x,x,x)
#define WPAIRS2(X) \
  X(x,1,0,0,0,0,y,x,y) X(y,1,1,0,0,0,x,y,x) X(xy,2,0,1,0,0,yx,yx,yx) X(yx,2,1,0,0,0,xy,xy,yy)
#define WPAIRS3(X) \
  X(x,1,0,0,0,0,y,x,z) X(y,1,1,0,0,0,z,y,x) X(z,1,2,0,0,0,x,z,y) X(xy,2,0,1,0,0,yx,yx,yy) \
  X(xz,2,0,2,0,0,zx,zx,yz) X(yx,2,1,0,0,0,xy,xy,zx) X(yz,2,1,2,0,0,zy,zy,zy) X(zx,2,2,0,0,0,xz,xz,zz) \
  X(zy,2,2,1,0,0,yz,yz,xx) X(xyz,3,0,1,2,0,zyx,zzx,xzx) X(xzy,3,0,2,1,0,zyx,yyx,yzy) X(yxz,3,1,0,2,0,zxy,zzy,zzz) \
  X(yzx,3,1,2,0,0,zxy,xxy,yxx) X(zxy,3,2,0,1,0,yxz,yyz,zxz) X(zyx,3,2,1,0,0,yxz,xxz,xxz)
#define WPAIRS4(X) \
  X(x,1,0,0,0,0,y,x,w) X(y,1,1,0,0,0,z,y,x) X(z,1,2,0,0,0,w,z,y) X(w,1,3,0,0,0,x,w,z) \
  X(xy,2,0,1,0,0,yx,yx,yz) X(xz,2,0,2,0,0,zx,zx,zw) X(xw,2,0,3,0,0,wx,wx,xx) X(yx,2,1,0,0,0,xy,xy,yy) \
  X(yz,2,1,2,0,0,zy,zy,zz) X(yw,2,1,3,0,0,wy,wy,ww) X(zx,2,2,0,0,0,xz,xz,yx) X(zy,2,2,1,0,0,yz,yz,zz) \
  X(zw,2,2,3,0,0,wz,wz,wz) X(wx,2,3,0,0,0,xw,xw,xw) X(wy,2,3,1,0,0,yw,yw,zx) X(wz,2,3,2,0,0,zw,zw,wy) \
  X(xyz,3,0,1,2,0,zyx,zzx,zxy) X(xyw,3,0,1,3,0,ywx,wwx,xyz) X(xzy,3,0,2,1,0,yzx,yyx,zzw) X(xzw,3,0,2,3,0,zwx,wwx,yxx) \
  X(xwy,3,0,3,1,0,ywx,yyx,wyy) X(xwz,3,0,3,2,0,wzx,zzx,yzz) X(yxz,3,1,0,2,0,zxy,zzy,www) X(yxw,3,1,0,3,0,xwy,wwy,zyx) \
  X(yzx,3,1,2,0,0,xzy,xxy,xzy) X(yzw,3,1,2,3,0,zwy,wwy,zwz) X(ywx,3,1,3,0,0,xwy,xxy,yxw) X(ywz,3,1,3,2,0,wzy,zzy,wzx) \
  X(zxy,3,2,0,1,0,yxz,yyz,ywy) X(zxw,3,2,0,3,0,xwz,wwz,xxz) X(zyx,3,2,1,0,0,xyz,xxz,zyw) X(zyw,3,2,1,3,0,ywz,wwz,xwx) \
  X(zwx,3,2,3,0,0,xwz,xxz,wxy) X(zwy,3,2,3,1,0,wyz,yyz,yyz) X(wxy,3,3,0,1,0,yxw,yyw,wzw) X(wxz,3,3,0,2,0,xzw,zzw,zxx) \
  X(wyx,3,3,1,0,0,xyw,xxw,xyy) X(wyz,3,3,1,2,0,yzw,zzw,zzz) X(wzx,3,3,2,0,0,xzw,xxw,xww) X(wzy,3,3,2,1,0,zyw,yyw,wyx) \
  X(xyzw,4,0,1,2,3,wzyx,wwwx,xzwx) X(xywz,4,0,1,3,2,ywzx,zzzx,yyxy) X(xzyw,4,0,2,1,3,wyzx,wwwx,ywyz) X(xzwy,4,0,2,3,1,zwyx,yyyx,zyzw) \
  X(xwyz,4,0,3,1,2,zywx,zzzx,wxxx) X(xwzy,4,0,3,2,1,wzyx,yyyx,wzyy) X(yxzw,4,1,0,2,3,wzxy,wwwy,xxzz) X(yxwz,4,1,0,3,2,xwzy,zzzy,xzww) \
  X(yzxw,4,1,2,0,3,wxzy,wwwy,yyyx) X(yzwx,4,1,2,3,0,zwxy,xxxy,ywzy) X(ywxz,4,1,3,0,2,zxwy,zzzy,zywz) X(ywzx,4,1,3,2,0,wzxy,xxxy,wxxw) \
  X(zxyw,4,2,0,1,3,wyxz,wwwz,wzzx) X(zxwy,4,2,0,3,1,xwyz,yyyz,xxwy) X(zyxw,4,2,1,0,3,wxyz,wwwz,xwxz) X(zywx,4,2,1,3,0,ywxz,xxxz,yyyw) \
  X(zwxy,4,2,3,0,1,yxwz,yyyz,ywwx) X(zwyx,4,2,3,1,0,wyxz,xxxz,zzxy) X(wxyz,4,3,0,1,2,zyxw,zzzw,wxyw) X(wxzy,4,3,0,2,1,xzyw,yyyw,wzzw) \
  X(wyxz,4,3,1,0,2,zxyw,zzzw,xyxx) X(wyzx,4,3,1,2,0,yzxw,xxxw,xwyy) X(wzxy,4,3,2,0,1,yxzw,yyyw,yyzz) X(wzyx,4,3,2,1,0,zyxw,xxxw,ywww)
