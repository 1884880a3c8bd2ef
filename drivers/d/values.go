// Code generated by tools/mkvalues.py.

package d

import (
	"context"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/xproto"
	"xtadrv/rt"
)

func ValSBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFBool(ctx context.Context, v bool) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrBool(ctx context.Context, v *bool) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrBool(ctx context.Context, v *bool) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrBool(ctx context.Context, v **bool) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFInt(ctx context.Context, v int) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrInt(ctx context.Context, v *int) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrInt(ctx context.Context, v *int) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrInt(ctx context.Context, v **int) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFInt8(ctx context.Context, v int8) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrInt8(ctx context.Context, v *int8) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrInt8(ctx context.Context, v *int8) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrInt8(ctx context.Context, v **int8) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFInt16(ctx context.Context, v int16) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrInt16(ctx context.Context, v *int16) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrInt16(ctx context.Context, v *int16) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrInt16(ctx context.Context, v **int16) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFInt32(ctx context.Context, v int32) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrInt32(ctx context.Context, v *int32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrInt32(ctx context.Context, v *int32) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrInt32(ctx context.Context, v **int32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFInt64(ctx context.Context, v int64) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrInt64(ctx context.Context, v *int64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrInt64(ctx context.Context, v *int64) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrInt64(ctx context.Context, v **int64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFUint(ctx context.Context, v uint) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrUint(ctx context.Context, v *uint) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrUint(ctx context.Context, v *uint) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrUint(ctx context.Context, v **uint) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFUint8(ctx context.Context, v uint8) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrUint8(ctx context.Context, v *uint8) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrUint8(ctx context.Context, v *uint8) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrUint8(ctx context.Context, v **uint8) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFUint16(ctx context.Context, v uint16) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrUint16(ctx context.Context, v *uint16) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrUint16(ctx context.Context, v *uint16) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrUint16(ctx context.Context, v **uint16) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFUint32(ctx context.Context, v uint32) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrUint32(ctx context.Context, v *uint32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrUint32(ctx context.Context, v *uint32) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrUint32(ctx context.Context, v **uint32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFUint64(ctx context.Context, v uint64) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrUint64(ctx context.Context, v *uint64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrUint64(ctx context.Context, v *uint64) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrUint64(ctx context.Context, v **uint64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFFloat32(ctx context.Context, v float32) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrFloat32(ctx context.Context, v *float32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrFloat32(ctx context.Context, v *float32) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrFloat32(ctx context.Context, v **float32) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFFloat64(ctx context.Context, v float64) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrFloat64(ctx context.Context, v *float64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrFloat64(ctx context.Context, v *float64) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrFloat64(ctx context.Context, v **float64) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFString(ctx context.Context, v string) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrString(ctx context.Context, v *string) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrString(ctx context.Context, v *string) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrString(ctx context.Context, v **string) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFBytes(ctx context.Context, v []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrBytes(ctx context.Context, v *[]byte) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrBytes(ctx context.Context, v *[]byte) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrBytes(ctx context.Context, v **[]byte) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSTime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValETime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRTime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValITime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWTime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUTime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMTime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOTime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFTime(ctx context.Context, v time.Time) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrTime(ctx context.Context, v *time.Time) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrTime(ctx context.Context, v *time.Time) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrTime(ctx context.Context, v **time.Time) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValODuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFDuration(ctx context.Context, v time.Duration) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValSPtrDuration(ctx context.Context, v *time.Duration) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEPtrDuration(ctx context.Context, v *time.Duration) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValSPtrPtrDuration(ctx context.Context, v **time.Duration) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValSNil(ctx context.Context) {
	x := rt.Pipe()
	x.StmtExecute("s", nil)
	rt.Send(ctx, x)
}

func ValENil(ctx context.Context) {
	x := rt.Pipe()
	x.Execute(7, nil)
	rt.Send(ctx, x)
}

func ValRNil(ctx context.Context) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(nil)
		return nil
	})
	rt.Send(ctx, x)
}

func ValINil(ctx context.Context) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{nil}})
	rt.Send(ctx, x)
}

func ValWNil(ctx context.Context) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{nil})
	rt.Send(ctx, x)
}

func ValUNil(ctx context.Context) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", nil)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMNil(ctx context.Context) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": nil})
	rt.Send(ctx, x)
}

func ValONil(ctx context.Context) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(nil))
	rt.Send(ctx, x)
}

func ValFNil(ctx context.Context) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(nil))
	rt.Send(ctx, x)
}

func ValSWString(ctx context.Context, s string, c collation.Collation) {
	x := rt.Pipe()
	x.StmtExecute("s", xtorm.String{Value: s, Collation: c})
	rt.Send(ctx, x)
}

func ValEWString(ctx context.Context, s string, c collation.Collation) {
	x := rt.Pipe()
	x.Execute(7, xtorm.String{Value: s, Collation: c})
	rt.Send(ctx, x)
}

func ValRWString(ctx context.Context, s string, c collation.Collation) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(xtorm.String{Value: s, Collation: c})
		return nil
	})
	rt.Send(ctx, x)
}

func ValUWString(ctx context.Context, s string, c collation.Collation) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", xtorm.String{Value: s, Collation: c})
		return nil
	})
	rt.Send(ctx, x)
}

func ValOWString(ctx context.Context, s string, c collation.Collation) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(xtorm.String{Value: s, Collation: c}))
	rt.Send(ctx, x)
}

func ValFWString(ctx context.Context, s string, c collation.Collation) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(xtorm.String{Value: s, Collation: c}))
	rt.Send(ctx, x)
}

func ValSWXML(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.StmtExecute("s", xtorm.XML(b))
	rt.Send(ctx, x)
}

func ValEWXML(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Execute(7, xtorm.XML(b))
	rt.Send(ctx, x)
}

func ValRWXML(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(xtorm.XML(b))
		return nil
	})
	rt.Send(ctx, x)
}

func ValUWXML(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", xtorm.XML(b))
		return nil
	})
	rt.Send(ctx, x)
}

func ValOWXML(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(xtorm.XML(b)))
	rt.Send(ctx, x)
}

func ValFWXML(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(xtorm.XML(b)))
	rt.Send(ctx, x)
}

func ValSWXMLString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.StmtExecute("s", xtorm.XMLString(s))
	rt.Send(ctx, x)
}

func ValEWXMLString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.Execute(7, xtorm.XMLString(s))
	rt.Send(ctx, x)
}

func ValRWXMLString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(xtorm.XMLString(s))
		return nil
	})
	rt.Send(ctx, x)
}

func ValUWXMLString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", xtorm.XMLString(s))
		return nil
	})
	rt.Send(ctx, x)
}

func ValOWXMLString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(xtorm.XMLString(s)))
	rt.Send(ctx, x)
}

func ValFWXMLString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(xtorm.XMLString(s)))
	rt.Send(ctx, x)
}

func ValSWJSON(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.StmtExecute("s", xtorm.JSON(b))
	rt.Send(ctx, x)
}

func ValEWJSON(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Execute(7, xtorm.JSON(b))
	rt.Send(ctx, x)
}

func ValRWJSON(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(xtorm.JSON(b))
		return nil
	})
	rt.Send(ctx, x)
}

func ValUWJSON(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", xtorm.JSON(b))
		return nil
	})
	rt.Send(ctx, x)
}

func ValOWJSON(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(xtorm.JSON(b)))
	rt.Send(ctx, x)
}

func ValFWJSON(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(xtorm.JSON(b)))
	rt.Send(ctx, x)
}

func ValSWJSONString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.StmtExecute("s", xtorm.JSONString(s))
	rt.Send(ctx, x)
}

func ValEWJSONString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.Execute(7, xtorm.JSONString(s))
	rt.Send(ctx, x)
}

func ValRWJSONString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(xtorm.JSONString(s))
		return nil
	})
	rt.Send(ctx, x)
}

func ValUWJSONString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", xtorm.JSONString(s))
		return nil
	})
	rt.Send(ctx, x)
}

func ValOWJSONString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(xtorm.JSONString(s)))
	rt.Send(ctx, x)
}

func ValFWJSONString(ctx context.Context, s string) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(xtorm.JSONString(s)))
	rt.Send(ctx, x)
}

func ValSWGeometry(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.StmtExecute("s", xtorm.Geometry(b))
	rt.Send(ctx, x)
}

func ValEWGeometry(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Execute(7, xtorm.Geometry(b))
	rt.Send(ctx, x)
}

func ValRWGeometry(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(xtorm.Geometry(b))
		return nil
	})
	rt.Send(ctx, x)
}

func ValUWGeometry(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", xtorm.Geometry(b))
		return nil
	})
	rt.Send(ctx, x)
}

func ValOWGeometry(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(xtorm.Geometry(b)))
	rt.Send(ctx, x)
}

func ValFWGeometry(ctx context.Context, b []byte) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(xtorm.Geometry(b)))
	rt.Send(ctx, x)
}

func ValSPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.StmtExecute("s", p)
	rt.Send(ctx, x)
}

func ValEPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.Execute(7, p)
	rt.Send(ctx, x)
}

func ValRPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(p)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{p}})
	rt.Send(ctx, x)
}

func ValWPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{p})
	rt.Send(ctx, x)
}

func ValUPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", p)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": p})
	rt.Send(ctx, x)
}

func ValOPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(p))
	rt.Send(ctx, x)
}

func ValFPtrWString(ctx context.Context, p *xtorm.String) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(p))
	rt.Send(ctx, x)
}

func ValSAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.StmtExecute("s", v)
	rt.Send(ctx, x)
}

func ValEAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.Execute(7, v)
	rt.Send(ctx, x)
}

func ValRAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	rt.Send(ctx, x)
}

func ValWAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{v})
	rt.Send(ctx, x)
}

func ValUAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", v)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": v})
	rt.Send(ctx, x)
}

func ValOAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(v))
	rt.Send(ctx, x)
}

func ValFAny(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(v))
	rt.Send(ctx, x)
}

func ValRExpr(ctx context.Context, e xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(e)
		return nil
	})
	rt.Send(ctx, x)
}

func ValIExpr(ctx context.Context, e xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.Insert("t", []string{"c"}, [][]interface{}{{e}})
	rt.Send(ctx, x)
}

func ValWExpr(ctx context.Context, e xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.InsertRow("t", nil, []interface{}{e})
	rt.Send(ctx, x)
}

func ValUExpr(ctx context.Context, e xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		u.Set("c", e)
		return nil
	})
	rt.Send(ctx, x)
}

func ValMExpr(ctx context.Context, e xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.Update("t", nil, map[string]interface{}{"c": e})
	rt.Send(ctx, x)
}

func ValOExpr(ctx context.Context, e xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Not(e))
	rt.Send(ctx, x)
}

func ValFExpr(ctx context.Context, e xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.Delete("t", xtorm.Concat(e))
	rt.Send(ctx, x)
}
