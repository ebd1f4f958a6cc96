// Swizzles: a method named by components returns those components in that order.
pub fn law_vector1(a: [S; 1]) {
    let v: Vector1<S> = vec_of(a);
    same(raw(v.x()), [a[0]]);
}
pub fn law_vector2(a: [S; 2]) {
    let v: Vector2<S> = vec_of(a);
    same(raw(v.x()), [a[0]]);
    same(raw(v.y()), [a[1]]);
    same(raw(v.xx()), [a[0], a[0]]);
    same(raw(v.xy()), [a[0], a[1]]);
    same(raw(v.yx()), [a[1], a[0]]);
    same(raw(v.yy()), [a[1], a[1]]);
}
pub fn law_vector3(a: [S; 3]) {
    let v: Vector3<S> = vec_of(a);
    same(raw(v.x()), [a[0]]);
    same(raw(v.y()), [a[1]]);
    same(raw(v.z()), [a[2]]);
    same(raw(v.xx()), [a[0], a[0]]);
    same(raw(v.xy()), [a[0], a[1]]);
    same(raw(v.xz()), [a[0], a[2]]);
    same(raw(v.yx()), [a[1], a[0]]);
    same(raw(v.yy()), [a[1], a[1]]);
    same(raw(v.yz()), [a[1], a[2]]);
    same(raw(v.zx()), [a[2], a[0]]);
    same(raw(v.zy()), [a[2], a[1]]);
    same(raw(v.zz()), [a[2], a[2]]);
    same(raw(v.xxx()), [a[0], a[0], a[0]]);
    same(raw(v.xxy()), [a[0], a[0], a[1]]);
    same(raw(v.xxz()), [a[0], a[0], a[2]]);
    same(raw(v.xyx()), [a[0], a[1], a[0]]);
    same(raw(v.xyy()), [a[0], a[1], a[1]]);
    same(raw(v.xyz()), [a[0], a[1], a[2]]);
    same(raw(v.xzx()), [a[0], a[2], a[0]]);
    same(raw(v.xzy()), [a[0], a[2], a[1]]);
    same(raw(v.xzz()), [a[0], a[2], a[2]]);
    same(raw(v.yxx()), [a[1], a[0], a[0]]);
    same(raw(v.yxy()), [a[1], a[0], a[1]]);
    same(raw(v.yxz()), [a[1], a[0], a[2]]);
    same(raw(v.yyx()), [a[1], a[1], a[0]]);
    same(raw(v.yyy()), [a[1], a[1], a[1]]);
    same(raw(v.yyz()), [a[1], a[1], a[2]]);
    same(raw(v.yzx()), [a[1], a[2], a[0]]);
    same(raw(v.yzy()), [a[1], a[2], a[1]]);
    same(raw(v.yzz()), [a[1], a[2], a[2]]);
    same(raw(v.zxx()), [a[2], a[0], a[0]]);
    same(raw(v.zxy()), [a[2], a[0], a[1]]);
    same(raw(v.zxz()), [a[2], a[0], a[2]]);
    same(raw(v.zyx()), [a[2], a[1], a[0]]);
    same(raw(v.zyy()), [a[2], a[1], a[1]]);
    same(raw(v.zyz()), [a[2], a[1], a[2]]);
    same(raw(v.zzx()), [a[2], a[2], a[0]]);
    same(raw(v.zzy()), [a[2], a[2], a[1]]);
    same(raw(v.zzz()), [a[2], a[2], a[2]]);
}
pub fn law_vector4(a: [S; 4]) {
    let v: Vector4<S> = vec_of(a);
    same(raw(v.w()), [a[3]]);
    same(raw(v.x()), [a[0]]);
    same(raw(v.y()), [a[1]]);
    same(raw(v.z()), [a[2]]);
    same(raw(v.ww()), [a[3], a[3]]);
    same(raw(v.wx()), [a[3], a[0]]);
    same(raw(v.wy()), [a[3], a[1]]);
    same(raw(v.wz()), [a[3], a[2]]);
    same(raw(v.xw()), [a[0], a[3]]);
    same(raw(v.xx()), [a[0], a[0]]);
    same(raw(v.xy()), [a[0], a[1]]);
    same(raw(v.xz()), [a[0], a[2]]);
    same(raw(v.yw()), [a[1], a[3]]);
    same(raw(v.yx()), [a[1], a[0]]);
    same(raw(v.yy()), [a[1], a[1]]);
    same(raw(v.yz()), [a[1], a[2]]);
    same(raw(v.zw()), [a[2], a[3]]);
    same(raw(v.zx()), [a[2], a[0]]);
    same(raw(v.zy()), [a[2], a[1]]);
    same(raw(v.zz()), [a[2], a[2]]);
    same(raw(v.www()), [a[3], a[3], a[3]]);
    same(raw(v.wwx()), [a[3], a[3], a[0]]);
    same(raw(v.wwy()), [a[3], a[3], a[1]]);
    same(raw(v.wwz()), [a[3], a[3], a[2]]);
    same(raw(v.wxw()), [a[3], a[0], a[3]]);
    same(raw(v.wxx()), [a[3], a[0], a[0]]);
    same(raw(v.wxy()), [a[3], a[0], a[1]]);
    same(raw(v.wxz()), [a[3], a[0], a[2]]);
    same(raw(v.wyw()), [a[3], a[1], a[3]]);
    same(raw(v.wyx()), [a[3], a[1], a[0]]);
    same(raw(v.wyy()), [a[3], a[1], a[1]]);
    same(raw(v.wyz()), [a[3], a[1], a[2]]);
    same(raw(v.wzw()), [a[3], a[2], a[3]]);
    same(raw(v.wzx()), [a[3], a[2], a[0]]);
    same(raw(v.wzy()), [a[3], a[2], a[1]]);
    same(raw(v.wzz()), [a[3], a[2], a[2]]);
    same(raw(v.xww()), [a[0], a[3], a[3]]);
    same(raw(v.xwx()), [a[0], a[3], a[0]]);
    same(raw(v.xwy()), [a[0], a[3], a[1]]);
    same(raw(v.xwz()), [a[0], a[3], a[2]]);
    same(raw(v.xxw()), [a[0], a[0], a[3]]);
    same(raw(v.xxx()), [a[0], a[0], a[0]]);
    same(raw(v.xxy()), [a[0], a[0], a[1]]);
    same(raw(v.xxz()), [a[0], a[0], a[2]]);
    same(raw(v.xyw()), [a[0], a[1], a[3]]);
    same(raw(v.xyx()), [a[0], a[1], a[0]]);
    same(raw(v.xyy()), [a[0], a[1], a[1]]);
    same(raw(v.xyz()), [a[0], a[1], a[2]]);
    same(raw(v.xzw()), [a[0], a[2], a[3]]);
    same(raw(v.xzx()), [a[0], a[2], a[0]]);
    same(raw(v.xzy()), [a[0], a[2], a[1]]);
    same(raw(v.xzz()), [a[0], a[2], a[2]]);
    same(raw(v.yww()), [a[1], a[3], a[3]]);
    same(raw(v.ywx()), [a[1], a[3], a[0]]);
    same(raw(v.ywy()), [a[1], a[3], a[1]]);
    same(raw(v.ywz()), [a[1], a[3], a[2]]);
    same(raw(v.yxw()), [a[1], a[0], a[3]]);
    same(raw(v.yxx()), [a[1], a[0], a[0]]);
    same(raw(v.yxy()), [a[1], a[0], a[1]]);
    same(raw(v.yxz()), [a[1], a[0], a[2]]);
    same(raw(v.yyw()), [a[1], a[1], a[3]]);
    same(raw(v.yyx()), [a[1], a[1], a[0]]);
    same(raw(v.yyy()), [a[1], a[1], a[1]]);
    same(raw(v.yyz()), [a[1], a[1], a[2]]);
    same(raw(v.yzw()), [a[1], a[2], a[3]]);
    same(raw(v.yzx()), [a[1], a[2], a[0]]);
    same(raw(v.yzy()), [a[1], a[2], a[1]]);
    same(raw(v.yzz()), [a[1], a[2], a[2]]);
    same(raw(v.zww()), [a[2], a[3], a[3]]);
    same(raw(v.zwx()), [a[2], a[3], a[0]]);
    same(raw(v.zwy()), [a[2], a[3], a[1]]);
    same(raw(v.zwz()), [a[2], a[3], a[2]]);
    same(raw(v.zxw()), [a[2], a[0], a[3]]);
    same(raw(v.zxx()), [a[2], a[0], a[0]]);
    same(raw(v.zxy()), [a[2], a[0], a[1]]);
    same(raw(v.zxz()), [a[2], a[0], a[2]]);
    same(raw(v.zyw()), [a[2], a[1], a[3]]);
    same(raw(v.zyx()), [a[2], a[1], a[0]]);
    same(raw(v.zyy()), [a[2], a[1], a[1]]);
    same(raw(v.zyz()), [a[2], a[1], a[2]]);
    same(raw(v.zzw()), [a[2], a[2], a[3]]);
    same(raw(v.zzx()), [a[2], a[2], a[0]]);
    same(raw(v.zzy()), [a[2], a[2], a[1]]);
    same(raw(v.zzz()), [a[2], a[2], a[2]]);
    same(raw(v.wwww()), [a[3], a[3], a[3], a[3]]);
    same(raw(v.wwwx()), [a[3], a[3], a[3], a[0]]);
    same(raw(v.wwwy()), [a[3], a[3], a[3], a[1]]);
    same(raw(v.wwwz()), [a[3], a[3], a[3], a[2]]);
    same(raw(v.wwxw()), [a[3], a[3], a[0], a[3]]);
    same(raw(v.wwxx()), [a[3], a[3], a[0], a[0]]);
    same(raw(v.wwxy()), [a[3], a[3], a[0], a[1]]);
    same(raw(v.wwxz()), [a[3], a[3], a[0], a[2]]);
    same(raw(v.wwyw()), [a[3], a[3], a[1], a[3]]);
    same(raw(v.wwyx()), [a[3], a[3], a[1], a[0]]);
    same(raw(v.wwyy()), [a[3], a[3], a[1], a[1]]);
    same(raw(v.wwyz()), [a[3], a[3], a[1], a[2]]);
    same(raw(v.wwzw()), [a[3], a[3], a[2], a[3]]);
    same(raw(v.wwzx()), [a[3], a[3], a[2], a[0]]);
    same(raw(v.wwzy()), [a[3], a[3], a[2], a[1]]);
    same(raw(v.wwzz()), [a[3], a[3], a[2], a[2]]);
    same(raw(v.wxww()), [a[3], a[0], a[3], a[3]]);
    same(raw(v.wxwx()), [a[3], a[0], a[3], a[0]]);
    same(raw(v.wxwy()), [a[3], a[0], a[3], a[1]]);
    same(raw(v.wxwz()), [a[3], a[0], a[3], a[2]]);
    same(raw(v.wxxw()), [a[3], a[0], a[0], a[3]]);
    same(raw(v.wxxx()), [a[3], a[0], a[0], a[0]]);
    same(raw(v.wxxy()), [a[3], a[0], a[0], a[1]]);
    same(raw(v.wxxz()), [a[3], a[0], a[0], a[2]]);
    same(raw(v.wxyw()), [a[3], a[0], a[1], a[3]]);
    same(raw(v.wxyx()), [a[3], a[0], a[1], a[0]]);
    same(raw(v.wxyy()), [a[3], a[0], a[1], a[1]]);
    same(raw(v.wxyz()), [a[3], a[0], a[1], a[2]]);
    same(raw(v.wxzw()), [a[3], a[0], a[2], a[3]]);
    same(raw(v.wxzx()), [a[3], a[0], a[2], a[0]]);
    same(raw(v.wxzy()), [a[3], a[0], a[2], a[1]]);
    same(raw(v.wxzz()), [a[3], a[0], a[2], a[2]]);
    same(raw(v.wyww()), [a[3], a[1], a[3], a[3]]);
    same(raw(v.wywx()), [a[3], a[1], a[3], a[0]]);
    same(raw(v.wywy()), [a[3], a[1], a[3], a[1]]);
    same(raw(v.wywz()), [a[3], a[1], a[3], a[2]]);
    same(raw(v.wyxw()), [a[3], a[1], a[0], a[3]]);
    same(raw(v.wyxx()), [a[3], a[1], a[0], a[0]]);
    same(raw(v.wyxy()), [a[3], a[1], a[0], a[1]]);
    same(raw(v.wyxz()), [a[3], a[1], a[0], a[2]]);
    same(raw(v.wyyw()), [a[3], a[1], a[1], a[3]]);
    same(raw(v.wyyx()), [a[3], a[1], a[1], a[0]]);
    same(raw(v.wyyy()), [a[3], a[1], a[1], a[1]]);
    same(raw(v.wyyz()), [a[3], a[1], a[1], a[2]]);
    same(raw(v.wyzw()), [a[3], a[1], a[2], a[3]]);
    same(raw(v.wyzx()), [a[3], a[1], a[2], a[0]]);
    same(raw(v.wyzy()), [a[3], a[1], a[2], a[1]]);
    same(raw(v.wyzz()), [a[3], a[1], a[2], a[2]]);
    same(raw(v.wzww()), [a[3], a[2], a[3], a[3]]);
    same(raw(v.wzwx()), [a[3], a[2], a[3], a[0]]);
    same(raw(v.wzwy()), [a[3], a[2], a[3], a[1]]);
    same(raw(v.wzwz()), [a[3], a[2], a[3], a[2]]);
    same(raw(v.wzxw()), [a[3], a[2], a[0], a[3]]);
    same(raw(v.wzxx()), [a[3], a[2], a[0], a[0]]);
    same(raw(v.wzxy()), [a[3], a[2], a[0], a[1]]);
    same(raw(v.wzxz()), [a[3], a[2], a[0], a[2]]);
    same(raw(v.wzyw()), [a[3], a[2], a[1], a[3]]);
    same(raw(v.wzyx()), [a[3], a[2], a[1], a[0]]);
    same(raw(v.wzyy()), [a[3], a[2], a[1], a[1]]);
    same(raw(v.wzyz()), [a[3], a[2], a[1], a[2]]);
    same(raw(v.wzzw()), [a[3], a[2], a[2], a[3]]);
    same(raw(v.wzzx()), [a[3], a[2], a[2], a[0]]);
    same(raw(v.wzzy()), [a[3], a[2], a[2], a[1]]);
    same(raw(v.wzzz()), [a[3], a[2], a[2], a[2]]);
    same(raw(v.xwww()), [a[0], a[3], a[3], a[3]]);
    same(raw(v.xwwx()), [a[0], a[3], a[3], a[0]]);
    same(raw(v.xwwy()), [a[0], a[3], a[3], a[1]]);
    same(raw(v.xwwz()), [a[0], a[3], a[3], a[2]]);
    same(raw(v.xwxw()), [a[0], a[3], a[0], a[3]]);
    same(raw(v.xwxx()), [a[0], a[3], a[0], a[0]]);
    same(raw(v.xwxy()), [a[0], a[3], a[0], a[1]]);
    same(raw(v.xwxz()), [a[0], a[3], a[0], a[2]]);
    same(raw(v.xwyw()), [a[0], a[3], a[1], a[3]]);
    same(raw(v.xwyx()), [a[0], a[3], a[1], a[0]]);
    same(raw(v.xwyy()), [a[0], a[3], a[1], a[1]]);
    same(raw(v.xwyz()), [a[0], a[3], a[1], a[2]]);
    same(raw(v.xwzw()), [a[0], a[3], a[2], a[3]]);
    same(raw(v.xwzx()), [a[0], a[3], a[2], a[0]]);
    same(raw(v.xwzy()), [a[0], a[3], a[2], a[1]]);
    same(raw(v.xwzz()), [a[0], a[3], a[2], a[2]]);
    same(raw(v.xxww()), [a[0], a[0], a[3], a[3]]);
    same(raw(v.xxwx()), [a[0], a[0], a[3], a[0]]);
    same(raw(v.xxwy()), [a[0], a[0], a[3], a[1]]);
    same(raw(v.xxwz()), [a[0], a[0], a[3], a[2]]);
    same(raw(v.xxxw()), [a[0], a[0], a[0], a[3]]);
    same(raw(v.xxxx()), [a[0], a[0], a[0], a[0]]);
    same(raw(v.xxxy()), [a[0], a[0], a[0], a[1]]);
    same(raw(v.xxxz()), [a[0], a[0], a[0], a[2]]);
    same(raw(v.xxyw()), [a[0], a[0], a[1], a[3]]);
    same(raw(v.xxyx()), [a[0], a[0], a[1], a[0]]);
    same(raw(v.xxyy()), [a[0], a[0], a[1], a[1]]);
    same(raw(v.xxyz()), [a[0], a[0], a[1], a[2]]);
    same(raw(v.xxzw()), [a[0], a[0], a[2], a[3]]);
    same(raw(v.xxzx()), [a[0], a[0], a[2], a[0]]);
    same(raw(v.xxzy()), [a[0], a[0], a[2], a[1]]);
    same(raw(v.xxzz()), [a[0], a[0], a[2], a[2]]);
    same(raw(v.xyww()), [a[0], a[1], a[3], a[3]]);
    same(raw(v.xywx()), [a[0], a[1], a[3], a[0]]);
    same(raw(v.xywy()), [a[0], a[1], a[3], a[1]]);
    same(raw(v.xywz()), [a[0], a[1], a[3], a[2]]);
    same(raw(v.xyxw()), [a[0], a[1], a[0], a[3]]);
    same(raw(v.xyxx()), [a[0], a[1], a[0], a[0]]);
    same(raw(v.xyxy()), [a[0], a[1], a[0], a[1]]);
    same(raw(v.xyxz()), [a[0], a[1], a[0], a[2]]);
    same(raw(v.xyyw()), [a[0], a[1], a[1], a[3]]);
    same(raw(v.xyyx()), [a[0], a[1], a[1], a[0]]);
    same(raw(v.xyyy()), [a[0], a[1], a[1], a[1]]);
    same(raw(v.xyyz()), [a[0], a[1], a[1], a[2]]);
    same(raw(v.xyzw()), [a[0], a[1], a[2], a[3]]);
    same(raw(v.xyzx()), [a[0], a[1], a[2], a[0]]);
    same(raw(v.xyzy()), [a[0], a[1], a[2], a[1]]);
    same(raw(v.xyzz()), [a[0], a[1], a[2], a[2]]);
    same(raw(v.xzww()), [a[0], a[2], a[3], a[3]]);
    same(raw(v.xzwx()), [a[0], a[2], a[3], a[0]]);
    same(raw(v.xzwy()), [a[0], a[2], a[3], a[1]]);
    same(raw(v.xzwz()), [a[0], a[2], a[3], a[2]]);
    same(raw(v.xzxw()), [a[0], a[2], a[0], a[3]]);
    same(raw(v.xzxx()), [a[0], a[2], a[0], a[0]]);
    same(raw(v.xzxy()), [a[0], a[2], a[0], a[1]]);
    same(raw(v.xzxz()), [a[0], a[2], a[0], a[2]]);
    same(raw(v.xzyw()), [a[0], a[2], a[1], a[3]]);
    same(raw(v.xzyx()), [a[0], a[2], a[1], a[0]]);
    same(raw(v.xzyy()), [a[0], a[2], a[1], a[1]]);
    same(raw(v.xzyz()), [a[0], a[2], a[1], a[2]]);
    same(raw(v.xzzw()), [a[0], a[2], a[2], a[3]]);
    same(raw(v.xzzx()), [a[0], a[2], a[2], a[0]]);
    same(raw(v.xzzy()), [a[0], a[2], a[2], a[1]]);
    same(raw(v.xzzz()), [a[0], a[2], a[2], a[2]]);
    same(raw(v.ywww()), [a[1], a[3], a[3], a[3]]);
    same(raw(v.ywwx()), [a[1], a[3], a[3], a[0]]);
    same(raw(v.ywwy()), [a[1], a[3], a[3], a[1]]);
    same(raw(v.ywwz()), [a[1], a[3], a[3], a[2]]);
    same(raw(v.ywxw()), [a[1], a[3], a[0], a[3]]);
    same(raw(v.ywxx()), [a[1], a[3], a[0], a[0]]);
    same(raw(v.ywxy()), [a[1], a[3], a[0], a[1]]);
    same(raw(v.ywxz()), [a[1], a[3], a[0], a[2]]);
    same(raw(v.ywyw()), [a[1], a[3], a[1], a[3]]);
    same(raw(v.ywyx()), [a[1], a[3], a[1], a[0]]);
    same(raw(v.ywyy()), [a[1], a[3], a[1], a[1]]);
    same(raw(v.ywyz()), [a[1], a[3], a[1], a[2]]);
    same(raw(v.ywzw()), [a[1], a[3], a[2], a[3]]);
    same(raw(v.ywzx()), [a[1], a[3], a[2], a[0]]);
    same(raw(v.ywzy()), [a[1], a[3], a[2], a[1]]);
    same(raw(v.ywzz()), [a[1], a[3], a[2], a[2]]);
    same(raw(v.yxww()), [a[1], a[0], a[3], a[3]]);
    same(raw(v.yxwx()), [a[1], a[0], a[3], a[0]]);
    same(raw(v.yxwy()), [a[1], a[0], a[3], a[1]]);
    same(raw(v.yxwz()), [a[1], a[0], a[3], a[2]]);
    same(raw(v.yxxw()), [a[1], a[0], a[0], a[3]]);
    same(raw(v.yxxx()), [a[1], a[0], a[0], a[0]]);
    same(raw(v.yxxy()), [a[1], a[0], a[0], a[1]]);
    same(raw(v.yxxz()), [a[1], a[0], a[0], a[2]]);
    same(raw(v.yxyw()), [a[1], a[0], a[1], a[3]]);
    same(raw(v.yxyx()), [a[1], a[0], a[1], a[0]]);
    same(raw(v.yxyy()), [a[1], a[0], a[1], a[1]]);
    same(raw(v.yxyz()), [a[1], a[0], a[1], a[2]]);
    same(raw(v.yxzw()), [a[1], a[0], a[2], a[3]]);
    same(raw(v.yxzx()), [a[1], a[0], a[2], a[0]]);
    same(raw(v.yxzy()), [a[1], a[0], a[2], a[1]]);
    same(raw(v.yxzz()), [a[1], a[0], a[2], a[2]]);
    same(raw(v.yyww()), [a[1], a[1], a[3], a[3]]);
    same(raw(v.yywx()), [a[1], a[1], a[3], a[0]]);
    same(raw(v.yywy()), [a[1], a[1], a[3], a[1]]);
    same(raw(v.yywz()), [a[1], a[1], a[3], a[2]]);
    same(raw(v.yyxw()), [a[1], a[1], a[0], a[3]]);
    same(raw(v.yyxx()), [a[1], a[1], a[0], a[0]]);
    same(raw(v.yyxy()), [a[1], a[1], a[0], a[1]]);
    same(raw(v.yyxz()), [a[1], a[1], a[0], a[2]]);
    same(raw(v.yyyw()), [a[1], a[1], a[1], a[3]]);
    same(raw(v.yyyx()), [a[1], a[1], a[1], a[0]]);
    same(raw(v.yyyy()), [a[1], a[1], a[1], a[1]]);
    same(raw(v.yyyz()), [a[1], a[1], a[1], a[2]]);
    same(raw(v.yyzw()), [a[1], a[1], a[2], a[3]]);
    same(raw(v.yyzx()), [a[1], a[1], a[2], a[0]]);
    same(raw(v.yyzy()), [a[1], a[1], a[2], a[1]]);
    same(raw(v.yyzz()), [a[1], a[1], a[2], a[2]]);
    same(raw(v.yzww()), [a[1], a[2], a[3], a[3]]);
    same(raw(v.yzwx()), [a[1], a[2], a[3], a[0]]);
    same(raw(v.yzwy()), [a[1], a[2], a[3], a[1]]);
    same(raw(v.yzwz()), [a[1], a[2], a[3], a[2]]);
    same(raw(v.yzxw()), [a[1], a[2], a[0], a[3]]);
    same(raw(v.yzxx()), [a[1], a[2], a[0], a[0]]);
    same(raw(v.yzxy()), [a[1], a[2], a[0], a[1]]);
    same(raw(v.yzxz()), [a[1], a[2], a[0], a[2]]);
    same(raw(v.yzyw()), [a[1], a[2], a[1], a[3]]);
    same(raw(v.yzyx()), [a[1], a[2], a[1], a[0]]);
    same(raw(v.yzyy()), [a[1], a[2], a[1], a[1]]);
    same(raw(v.yzyz()), [a[1], a[2], a[1], a[2]]);
    same(raw(v.yzzw()), [a[1], a[2], a[2], a[3]]);
    same(raw(v.yzzx()), [a[1], a[2], a[2], a[0]]);
    same(raw(v.yzzy()), [a[1], a[2], a[2], a[1]]);
    same(raw(v.yzzz()), [a[1], a[2], a[2], a[2]]);
    same(raw(v.zwww()), [a[2], a[3], a[3], a[3]]);
    same(raw(v.zwwx()), [a[2], a[3], a[3], a[0]]);
    same(raw(v.zwwy()), [a[2], a[3], a[3], a[1]]);
    same(raw(v.zwwz()), [a[2], a[3], a[3], a[2]]);
    same(raw(v.zwxw()), [a[2], a[3], a[0], a[3]]);
    same(raw(v.zwxx()), [a[2], a[3], a[0], a[0]]);
    same(raw(v.zwxy()), [a[2], a[3], a[0], a[1]]);
    same(raw(v.zwxz()), [a[2], a[3], a[0], a[2]]);
    same(raw(v.zwyw()), [a[2], a[3], a[1], a[3]]);
    same(raw(v.zwyx()), [a[2], a[3], a[1], a[0]]);
    same(raw(v.zwyy()), [a[2], a[3], a[1], a[1]]);
    same(raw(v.zwyz()), [a[2], a[3], a[1], a[2]]);
    same(raw(v.zwzw()), [a[2], a[3], a[2], a[3]]);
    same(raw(v.zwzx()), [a[2], a[3], a[2], a[0]]);
    same(raw(v.zwzy()), [a[2], a[3], a[2], a[1]]);
    same(raw(v.zwzz()), [a[2], a[3], a[2], a[2]]);
    same(raw(v.zxww()), [a[2], a[0], a[3], a[3]]);
    same(raw(v.zxwx()), [a[2], a[0], a[3], a[0]]);
    same(raw(v.zxwy()), [a[2], a[0], a[3], a[1]]);
    same(raw(v.zxwz()), [a[2], a[0], a[3], a[2]]);
    same(raw(v.zxxw()), [a[2], a[0], a[0], a[3]]);
    same(raw(v.zxxx()), [a[2], a[0], a[0], a[0]]);
    same(raw(v.zxxy()), [a[2], a[0], a[0], a[1]]);
    same(raw(v.zxxz()), [a[2], a[0], a[0], a[2]]);
    same(raw(v.zxyw()), [a[2], a[0], a[1], a[3]]);
    same(raw(v.zxyx()), [a[2], a[0], a[1], a[0]]);
    same(raw(v.zxyy()), [a[2], a[0], a[1], a[1]]);
    same(raw(v.zxyz()), [a[2], a[0], a[1], a[2]]);
    same(raw(v.zxzw()), [a[2], a[0], a[2], a[3]]);
    same(raw(v.zxzx()), [a[2], a[0], a[2], a[0]]);
    same(raw(v.zxzy()), [a[2], a[0], a[2], a[1]]);
    same(raw(v.zxzz()), [a[2], a[0], a[2], a[2]]);
    same(raw(v.zyww()), [a[2], a[1], a[3], a[3]]);
    same(raw(v.zywx()), [a[2], a[1], a[3], a[0]]);
    same(raw(v.zywy()), [a[2], a[1], a[3], a[1]]);
    same(raw(v.zywz()), [a[2], a[1], a[3], a[2]]);
    same(raw(v.zyxw()), [a[2], a[1], a[0], a[3]]);
    same(raw(v.zyxx()), [a[2], a[1], a[0], a[0]]);
    same(raw(v.zyxy()), [a[2], a[1], a[0], a[1]]);
    same(raw(v.zyxz()), [a[2], a[1], a[0], a[2]]);
    same(raw(v.zyyw()), [a[2], a[1], a[1], a[3]]);
    same(raw(v.zyyx()), [a[2], a[1], a[1], a[0]]);
    same(raw(v.zyyy()), [a[2], a[1], a[1], a[1]]);
    same(raw(v.zyyz()), [a[2], a[1], a[1], a[2]]);
    same(raw(v.zyzw()), [a[2], a[1], a[2], a[3]]);
    same(raw(v.zyzx()), [a[2], a[1], a[2], a[0]]);
    same(raw(v.zyzy()), [a[2], a[1], a[2], a[1]]);
    same(raw(v.zyzz()), [a[2], a[1], a[2], a[2]]);
    same(raw(v.zzww()), [a[2], a[2], a[3], a[3]]);
    same(raw(v.zzwx()), [a[2], a[2], a[3], a[0]]);
    same(raw(v.zzwy()), [a[2], a[2], a[3], a[1]]);
    same(raw(v.zzwz()), [a[2], a[2], a[3], a[2]]);
    same(raw(v.zzxw()), [a[2], a[2], a[0], a[3]]);
    same(raw(v.zzxx()), [a[2], a[2], a[0], a[0]]);
    same(raw(v.zzxy()), [a[2], a[2], a[0], a[1]]);
    same(raw(v.zzxz()), [a[2], a[2], a[0], a[2]]);
    same(raw(v.zzyw()), [a[2], a[2], a[1], a[3]]);
    same(raw(v.zzyx()), [a[2], a[2], a[1], a[0]]);
    same(raw(v.zzyy()), [a[2], a[2], a[1], a[1]]);
    same(raw(v.zzyz()), [a[2], a[2], a[1], a[2]]);
    same(raw(v.zzzw()), [a[2], a[2], a[2], a[3]]);
    same(raw(v.zzzx()), [a[2], a[2], a[2], a[0]]);
    same(raw(v.zzzy()), [a[2], a[2], a[2], a[1]]);
    same(raw(v.zzzz()), [a[2], a[2], a[2], a[2]]);
}
pub fn law_point1(a: [S; 1]) {
    let v: Point1<S> = pt_of(a);
    same(rawp(v.x()), [a[0]]);
}
pub fn law_point2(a: [S; 2]) {
    let v: Point2<S> = pt_of(a);
    same(rawp(v.x()), [a[0]]);
    same(rawp(v.y()), [a[1]]);
    same(rawp(v.xx()), [a[0], a[0]]);
    same(rawp(v.xy()), [a[0], a[1]]);
    same(rawp(v.yx()), [a[1], a[0]]);
    same(rawp(v.yy()), [a[1], a[1]]);
}
pub fn law_point3(a: [S; 3]) {
    let v: Point3<S> = pt_of(a);
    same(rawp(v.x()), [a[0]]);
    same(rawp(v.y()), [a[1]]);
    same(rawp(v.z()), [a[2]]);
    same(rawp(v.xx()), [a[0], a[0]]);
    same(rawp(v.xy()), [a[0], a[1]]);
    same(rawp(v.xz()), [a[0], a[2]]);
    same(rawp(v.yx()), [a[1], a[0]]);
    same(rawp(v.yy()), [a[1], a[1]]);
    same(rawp(v.yz()), [a[1], a[2]]);
    same(rawp(v.zx()), [a[2], a[0]]);
    same(rawp(v.zy()), [a[2], a[1]]);
    same(rawp(v.zz()), [a[2], a[2]]);
    same(rawp(v.xxx()), [a[0], a[0], a[0]]);
    same(rawp(v.xxy()), [a[0], a[0], a[1]]);
    same(rawp(v.xxz()), [a[0], a[0], a[2]]);
    same(rawp(v.xyx()), [a[0], a[1], a[0]]);
    same(rawp(v.xyy()), [a[0], a[1], a[1]]);
    same(rawp(v.xyz()), [a[0], a[1], a[2]]);
    same(rawp(v.xzx()), [a[0], a[2], a[0]]);
    same(rawp(v.xzy()), [a[0], a[2], a[1]]);
    same(rawp(v.xzz()), [a[0], a[2], a[2]]);
    same(rawp(v.yxx()), [a[1], a[0], a[0]]);
    same(rawp(v.yxy()), [a[1], a[0], a[1]]);
    same(rawp(v.yxz()), [a[1], a[0], a[2]]);
    same(rawp(v.yyx()), [a[1], a[1], a[0]]);
    same(rawp(v.yyy()), [a[1], a[1], a[1]]);
    same(rawp(v.yyz()), [a[1], a[1], a[2]]);
    same(rawp(v.yzx()), [a[1], a[2], a[0]]);
    same(rawp(v.yzy()), [a[1], a[2], a[1]]);
    same(rawp(v.yzz()), [a[1], a[2], a[2]]);
    same(rawp(v.zxx()), [a[2], a[0], a[0]]);
    same(rawp(v.zxy()), [a[2], a[0], a[1]]);
    same(rawp(v.zxz()), [a[2], a[0], a[2]]);
    same(rawp(v.zyx()), [a[2], a[1], a[0]]);
    same(rawp(v.zyy()), [a[2], a[1], a[1]]);
    same(rawp(v.zyz()), [a[2], a[1], a[2]]);
    same(rawp(v.zzx()), [a[2], a[2], a[0]]);
    same(rawp(v.zzy()), [a[2], a[2], a[1]]);
    same(rawp(v.zzz()), [a[2], a[2], a[2]]);
}
