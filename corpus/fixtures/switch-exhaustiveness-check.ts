export namespace A {
  export enum B {
    C,
    D,
  }
}

